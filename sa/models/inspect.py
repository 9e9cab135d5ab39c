import _sa


def isawaitable(x):
    return isinstance(x, _sa.abc_Awaitable)


iscoroutine = _sa.iscoroutine
iscoroutinefunction = _sa.iscoroutinefunction


def isfunction(x):
    return isinstance(x, _sa.function)


def ismethod(x):
    return isinstance(x, _sa.method)


def isclass(x):
    return isinstance(x, type)


def isgenerator(x):
    return isinstance(x, _sa.generator)


def isasyncgen(x):
    return isinstance(x, _sa.async_generator)
