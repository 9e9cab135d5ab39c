import _sa


class partial:
    def __init__(self, func, *args, **kw):
        if isinstance(func, partial):
            args = func.args + args
            k2 = dict(func.keywords)
            k2.update(kw)
            kw = k2
            func = func.func
        self.func = func
        self.args = args
        self.keywords = kw

    def __call__(self, *args, **kw):
        k2 = dict(self.keywords)
        k2.update(kw)
        return self.func(*self.args, *args, **k2)


class partialmethod:
    def __init__(self, func, *args, **kw):
        self.func = func
        self.args = args
        self.keywords = kw

    def __get__(self, obj, cls=None):
        f = self.func
        if isinstance(f, (staticmethod, classmethod)):
            f = f.__get__(obj, cls)
        elif obj is not None:
            return partial(f, obj, *self.args, **self.keywords)
        return partial(f, *self.args, **self.keywords)


def _noop(*a, **kw):
    return None


def update_wrapper(wrapper, wrapped, assigned=(), updated=()):
    if hasattr(wrapped, "__name__"):
        wrapper.__name__ = wrapped.__name__
    wrapper.__wrapped__ = wrapped
    return wrapper


class wraps:
    def __init__(self, wrapped, assigned=(), updated=()):
        self.w = wrapped

    def __call__(self, f):
        return update_wrapper(f, self.w)


def reduce(f, it, *init):
    it = iter(it)
    if init:
        acc = init[0]
    else:
        acc = next(it)
    for x in it:
        acc = f(acc, x)
    return acc


def cmp_to_key(f):
    class K:
        def __init__(self, obj):
            self.obj = obj

        def __lt__(self, o):
            return f(self.obj, o.obj) < 0

        def __gt__(self, o):
            return f(self.obj, o.obj) > 0

        def __eq__(self, o):
            return f(self.obj, o.obj) == 0
    return K


class cached_property:
    def __init__(self, func):
        self.func = func
        self.name = None

    def __set_name__(self, owner, name):
        self.name = name

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        v = self.func(obj)
        _sa.instance_dict_set(obj, self.name, v)
        return v


def lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return _cached(maxsize)
    return _cached


def cache(f):
    return _cached(f)


def _cached(f):
    memo = {}

    def wrapper(*args, **kw):
        k = (args, tuple(sorted(kw.items())))
        if k not in memo:
            memo[k] = f(*args, **kw)
        return memo[k]
    return wrapper


def total_ordering(cls):
    if not hasattr(cls, "__gt__"):
        cls.__gt__ = lambda a, b: not (a < b) and not (a == b)
        cls.__le__ = lambda a, b: (a < b) or (a == b)
        cls.__ge__ = lambda a, b: not (a < b)
    return cls


def singledispatch(f):
    reg = []

    def wrapper(x, *a, **kw):
        for t, g in reg:
            if isinstance(x, t):
                return g(x, *a, **kw)
        return f(x, *a, **kw)

    def register(t, g=None):
        if g is None:
            return lambda h: register(t, h)
        reg.insert(0, (t, g))
        return g
    wrapper.register = register
    return wrapper
