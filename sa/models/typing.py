import _sa
NamedTuple = _sa.NamedTuple
Hashable = _sa.abc_Hashable


class _Generic:
    def __getitem__(self, k):
        return self

    def __call__(self, *a, **kw):
        return self

    def __or__(self, o):
        return self

    def __ror__(self, o):
        return self

    def __mro_entries__(self, bases):
        return ()


_G = _Generic()
Any = Optional = Union = Callable = Dict = List = Set = FrozenSet = Tuple = Type = Awaitable = Coroutine = _G
Iterable = Iterator = Mapping = MutableMapping = Sequence = Collection = AsyncIterator = AsyncIterable = _G
Generic = Protocol = ClassVar = Final = Literal = Deque = DefaultDict = AsyncGenerator = Generator = Text = _G
NoReturn = Self = Union = Concatenate = Annotated = AnyStr = IO = Container = Sized = Reversible = _G
OrderedDict = Counter = Pattern = Match = SupportsFloat = SupportsInt = Required = NotRequired = _G
TYPE_CHECKING = False


class TypedDict(dict):
    pass


def TypeVar(*a, **kw):
    return _G


def ParamSpec(*a, **kw):
    return _G


def NewType(name, tp):
    return tp


def cast(t, v):
    return v


def overload(f):
    return f


def final(f):
    return f


def no_type_check(f):
    return f


def runtime_checkable(c):
    return c


def get_type_hints(o):
    return {}
