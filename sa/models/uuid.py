import _sa


def uuid4():
    return _sa.opaque("uuid")


uuid1 = uuid4
