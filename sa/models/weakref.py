import _sa


def ref(o, cb=None):
    return lambda: o


def proxy(o, cb=None):
    return o


class WeakKeyDictionary(dict):
    pass


class WeakValueDictionary(dict):
    pass


class WeakSet(set):
    pass
