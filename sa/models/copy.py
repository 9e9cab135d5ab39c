import _sa


def copy(x):
    return _sa.shallowcopy(x)


def deepcopy(x, memo=None):
    return _sa.deepcopy(x)


def replace(o, **kw):
    return o._replace(**kw)
