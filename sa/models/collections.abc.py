import _sa
Hashable = _sa.abc_Hashable
Callable = _sa.abc_Callable
Awaitable = _sa.abc_Awaitable
Coroutine = _sa.abc_Coroutine
Iterable = _sa.abc_Iterable
Iterator = _sa.abc_Iterator
Mapping = _sa.abc_Mapping
MutableMapping = _sa.abc_MutableMapping
Sequence = _sa.abc_Sequence
MutableSequence = _sa.abc_MutableSequence
Collection = _sa.abc_Collection
Set = _sa.abc_Set
Sized = _sa.abc_Sized
Container = _sa.abc_Container
AsyncIterator = _sa.abc_AsyncIterator
AsyncIterable = _sa.abc_AsyncIterable
Generator = _sa.abc_Generator


class _Mapping:
    def get(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            return default

    def __contains__(self, key):
        try:
            self[key]
        except KeyError:
            return False
        return True

    def keys(self):
        return dict.fromkeys(self).keys()

    def values(self):
        return {k: self[k] for k in self}.values()

    def items(self):
        return {k: self[k] for k in self}.items()

    def __eq__(self, other):
        return {k: self[k] for k in self} == {k: other[k] for k in other.keys()} if hasattr(other, "keys") else NotImplemented


_MISSING = object()


class _MutableMapping:
    def pop(self, key, default=_MISSING):
        try:
            value = self[key]
        except KeyError:
            if default is _MISSING:
                raise
            return default
        del self[key]
        return value

    def popitem(self):
        for key in self:
            value = self[key]
            del self[key]
            return key, value
        raise KeyError

    def clear(self):
        for key in list(self):
            del self[key]

    def update(self, other=(), /, **kw):
        if hasattr(other, "keys"):
            for key in other.keys():
                self[key] = other[key]
        else:
            for key, value in other:
                self[key] = value
        for key, value in kw.items():
            self[key] = value

    def setdefault(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            self[key] = default
        return default


class _Sequence:
    def __iter__(self):
        i = 0
        while True:
            try:
                v = self[i]
            except IndexError:
                return
            yield v
            i += 1

    def __contains__(self, value):
        for v in self:
            if v is value or v == value:
                return True
        return False

    def __reversed__(self):
        for i in reversed(range(len(self))):
            yield self[i]

    def index(self, value):
        i = 0
        for v in self:
            if v is value or v == value:
                return i
            i += 1
        raise ValueError

    def count(self, value):
        return sum([1 for v in self if v is value or v == value])


class _MutableSequence:
    def append(self, value):
        self.insert(len(self), value)

    def clear(self):
        while len(self):
            self.pop()

    def extend(self, values):
        for v in list(values):
            self.append(v)

    def pop(self, index=-1):
        v = self[index]
        del self[index]
        return v

    def remove(self, value):
        del self[self.index(value)]

    def __iadd__(self, values):
        self.extend(values)
        return self


class _Set:
    def isdisjoint(self, other):
        return not any([v in self for v in other])

    def __le__(self, other):
        return len(self) <= len(other) and all([v in other for v in self])

    def __ge__(self, other):
        return len(self) >= len(other) and all([v in self for v in other])

    def __eq__(self, other):
        return len(self) == len(other) and all([v in other for v in self])


def _give(cls, *parts):
    for p in parts:
        for n, f in vars(p).items():
            if n not in ("__module__", "__qualname__", "__doc__", "__dict__", "__weakref__"):
                setattr(cls, n, f)


_give(Mapping, _Mapping)
_give(MutableMapping, _Mapping, _MutableMapping)
_give(Sequence, _Sequence)
_give(MutableSequence, _Sequence, _MutableSequence)
_give(Set, _Set)
