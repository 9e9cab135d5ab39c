import _sa


class auto:
    pass


_sa.register_class("enum.auto", auto)


class EnumMeta(type):
    def __call__(cls, value):
        for m in cls._members_:
            if m is value or m.value == value:
                return m
        if hasattr(cls, "_missing_"):
            m = cls._missing_(value)
            if m is not None:
                return m
        raise ValueError("not a valid member")

    def __iter__(cls):
        return iter(cls._members_)

    def __len__(cls):
        return len(cls._members_)

    def __getitem__(cls, name):
        for m in cls._members_:
            if m.name == name:
                return m
        raise KeyError(name)

    def __contains__(cls, x):
        for m in cls._members_:
            if m is x or m.value == x:
                return True
        return False

    @property
    def __members__(cls):
        return {m.name: m for m in cls._members_}


EnumType = EnumMeta


class Enum(metaclass=EnumMeta):
    _members_ = ()


_sa.register_class("Enum", Enum)


class _Mixed:
    """What the members of an enumeration that are strings or numbers have besides."""
    @property
    def name(self):
        return _sa.enum_name(self)

    @property
    def value(self):
        return _sa.plain(self)

    @property
    def _name_(self):
        return _sa.enum_name(self)

    @property
    def _value_(self):
        return _sa.plain(self)


_sa.register_class("enum.mixed", _Mixed)


class ReprEnum(Enum):
    pass


class IntEnum(int, ReprEnum):
    pass


class StrEnum(str, ReprEnum):
    pass


_sa.register_class("ReprEnum", ReprEnum)


class Flag(Enum):
    def __or__(self, o):
        return _sa.not_modelled("enum.Flag")

    __and__ = __xor__ = __invert__ = __or__


class IntFlag(int, Flag):
    def __or__(self, o):
        return _sa.not_modelled("enum.IntFlag")

    __and__ = __xor__ = __invert__ = __or__


def unique(cls):
    return cls
