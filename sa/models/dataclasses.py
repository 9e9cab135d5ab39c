class _Missing:
    pass


MISSING = _Missing()


class Field:
    def __init__(self, default, default_factory, compare, init=True, kw_only=False, metadata=None):
        self.name = None
        self.default = default
        self.default_factory = default_factory
        self.compare = compare
        self.init = init
        self.kw_only = kw_only
        self.metadata = {} if metadata is None else metadata


def field(default=MISSING, default_factory=MISSING, compare=True, init=True, kw_only=False, metadata=None, **kw):
    return Field(default, default_factory, compare, init, kw_only, metadata)


class FrozenInstanceError(AttributeError):
    pass


def dataclass(cls=None, **opts):
    if cls is None:
        return lambda c: dataclass(c, **opts)
    fields = []
    for base in reversed(cls.__mro__):
        for n in base.__dict__.get("__annotations__", {}):
            if n not in fields:
                fields.append(n)

    compared = []
    for n in fields:
        d = getattr(cls, n, MISSING)
        if not isinstance(d, Field) or d.compare:
            compared.append(n)

    positional = []
    for n in fields:
        d = getattr(cls, n, MISSING)
        if isinstance(d, Field):
            if d.init and not d.kw_only and not opts.get("kw_only"):
                positional.append(n)
        elif not opts.get("kw_only"):
            positional.append(n)

    def __init__(self, *args, **kw):
        for n in fields:
            d = getattr(cls, n, MISSING)
            i = positional.index(n) if n in positional else len(args)
            if i < len(args):
                v = args[i]
                if n in kw:
                    raise TypeError("multiple values for argument")
            elif n in kw and not (isinstance(d, Field) and not d.init):
                v = kw.pop(n)
            elif isinstance(d, Field):
                if d.default_factory is not MISSING:
                    v = d.default_factory()
                elif d.default is not MISSING:
                    v = d.default
                elif not d.init:
                    continue
                else:
                    raise TypeError("missing argument")
            elif d is MISSING:
                raise TypeError("missing argument")
            else:
                v = d
            object.__setattr__(self, n, v)
        if kw or len(args) > len(positional):
            raise TypeError("unexpected argument")
        if hasattr(self, "__post_init__"):
            self.__post_init__()

    def __eq__(self, o):
        if type(o) is not type(self):
            return False
        for n in compared:
            if getattr(self, n) != getattr(o, n):
                return False
        return True

    def __lt__(self, o):
        return tuple([getattr(self, n) for n in compared]) < tuple([getattr(o, n) for n in compared])

    def __hash__(self):
        return hash(tuple([getattr(self, n) for n in compared]))
    if "__init__" not in cls.__dict__:
        cls.__init__ = __init__
    if opts.get("eq", True) and "__eq__" not in cls.__dict__:
        cls.__eq__ = __eq__
    if opts.get("frozen") or opts.get("unsafe_hash"):
        cls.__hash__ = __hash__
    if opts.get("order"):
        cls.__lt__ = __lt__
        cls.__le__ = lambda self, o: not o < self
        cls.__gt__ = lambda self, o: o < self
        cls.__ge__ = lambda self, o: not self < o
    if opts.get("frozen"):
        def __setattr__(self, n, v):
            raise FrozenInstanceError(n)
        cls.__setattr__ = __setattr__
    cls.__dataclass_fields__ = tuple(fields)
    return cls


def replace(o, **kw):
    d = {n: getattr(o, n) for n in o.__dataclass_fields__}
    d.update(kw)
    return type(o)(**d)


def fields(o):
    out = []
    for n in o.__dataclass_fields__:
        d = getattr(o if isinstance(o, type) else type(o), n, MISSING)
        f = Field(MISSING, MISSING, True) if not isinstance(d, Field) else Field(d.default, d.default_factory, d.compare, d.init, d.kw_only, d.metadata)
        if not isinstance(d, Field):
            f.default = d
        f.name = n
        out.append(f)
    return tuple(out)


def _deep(v, dict_factory):
    if is_dataclass(v) and not isinstance(v, type):
        return dict_factory([(n, _deep(getattr(v, n), dict_factory)) for n in v.__dataclass_fields__])
    if isinstance(v, tuple) and hasattr(v, "_fields"):
        return type(v)(*[_deep(x, dict_factory) for x in v])
    if isinstance(v, (list, tuple)):
        return type(v)([_deep(x, dict_factory) for x in v])
    if isinstance(v, dict):
        return type(v)([(_deep(k, dict_factory), _deep(x, dict_factory)) for k, x in v.items()])
    return v


def asdict(o, *, dict_factory=dict):
    return _deep(o, dict_factory)


def _flat(v, tuple_factory):
    if is_dataclass(v) and not isinstance(v, type):
        return tuple_factory([_flat(getattr(v, n), tuple_factory) for n in v.__dataclass_fields__])
    if isinstance(v, tuple) and hasattr(v, "_fields"):
        return type(v)(*[_flat(x, tuple_factory) for x in v])
    if isinstance(v, (list, tuple)):
        return type(v)([_flat(x, tuple_factory) for x in v])
    if isinstance(v, dict):
        return type(v)([(_flat(k, tuple_factory), _flat(x, tuple_factory)) for k, x in v.items()])
    return v


def astuple(o, *, tuple_factory=tuple):
    return _flat(o, tuple_factory)


def is_dataclass(o):
    return hasattr(o, "__dataclass_fields__")
