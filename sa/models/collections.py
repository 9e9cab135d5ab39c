import _sa
deque = _sa.deque
namedtuple = _sa.namedtuple


class OrderedDict(dict):
    def move_to_end(self, key, last=True):
        v = self.pop(key)
        if last:
            self[key] = v
        else:
            items = list(self.items())
            self.clear()
            self[key] = v
            for k, x in items:
                self[k] = x

    def popitem(self, last=True):
        if not self:
            raise KeyError("dictionary is empty")
        keys = list(self)
        k = keys[-1] if last else keys[0]
        return k, self.pop(k)


class defaultdict(dict):
    def __init__(self, default_factory=None, *args, **kw):
        self.default_factory = default_factory
        super().__init__(*args, **kw)

    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        v = self.default_factory()
        self[key] = v
        return v


class Counter(dict):
    def __init__(self, iterable=None, **kw):
        super().__init__()
        self.update(iterable, **kw)

    def __missing__(self, key):
        return 0

    def __delitem__(self, key):
        if key in self:
            super().__delitem__(key)

    def most_common(self, n=None):
        l = sorted(self.items(), key=lambda kv: kv[1], reverse=True)
        return l if n is None else l[:n]

    def total(self):
        return sum(self.values())

    def update(self, iterable=None, **kw):
        if iterable is not None:
            if isinstance(iterable, dict):
                for k, v in iterable.items():
                    self[k] = self.get(k, 0) + v
            else:
                for k in iterable:
                    self[k] = self.get(k, 0) + 1
        for k, v in kw.items():
            self[k] = self.get(k, 0) + v

    def subtract(self, iterable=None, **kw):
        if iterable is not None:
            if isinstance(iterable, dict):
                for k, v in iterable.items():
                    self[k] = self.get(k, 0) - v
            else:
                for k in iterable:
                    self[k] = self.get(k, 0) - 1
        for k, v in kw.items():
            self[k] = self.get(k, 0) - v

    def elements(self):
        for k, v in self.items():
            for _ in range(v):
                yield k

    def copy(self):
        return Counter(self)

    def _merged(self, other, f):
        r = Counter()
        for k in list(self) + [k for k in other if k not in self]:
            n = f(self[k], other[k])
            if n > 0:
                r[k] = n
        return r

    def _become(self, r):
        self.clear()
        for k, v in r.items():
            self[k] = v
        return self

    def __add__(self, other):
        if not isinstance(other, Counter):
            return NotImplemented
        return self._merged(other, lambda a, b: a + b)

    def __sub__(self, other):
        if not isinstance(other, Counter):
            return NotImplemented
        return self._merged(other, lambda a, b: a - b)

    def __or__(self, other):
        if not isinstance(other, Counter):
            return NotImplemented
        return self._merged(other, max)

    def __and__(self, other):
        if not isinstance(other, Counter):
            return NotImplemented
        return self._merged(other, min)

    def __pos__(self):
        return self._merged(Counter(), lambda a, b: a)

    def __neg__(self):
        return self._merged(Counter(), lambda a, b: -a)

    def __iadd__(self, other):
        return self._become(self + other)

    def __isub__(self, other):
        return self._become(self - other)

    def __ior__(self, other):
        return self._become(self | other)

    def __iand__(self, other):
        return self._become(self & other)


class ChainMap:
    def __init__(self, *maps):
        self.maps = list(maps) or [{}]

    def __getitem__(self, k):
        for m in self.maps:
            if k in m:
                return m[k]
        raise KeyError(k)

    def get(self, k, default=None):
        for m in self.maps:
            if k in m:
                return m[k]
        return default

    def __contains__(self, k):
        return any(k in m for m in self.maps)

    def __setitem__(self, k, v):
        self.maps[0][k] = v

    def __delitem__(self, k):
        del self.maps[0][k]

    def __iter__(self):
        d = {}
        for m in reversed(self.maps):
            for k in m:
                d[k] = None
        return iter(d)

    def __len__(self):
        return len(list(iter(self)))

    def __bool__(self):
        return any(self.maps)

    def keys(self):
        return list(iter(self))

    def values(self):
        return [self[k] for k in self]

    def items(self):
        return [(k, self[k]) for k in self]

    def new_child(self, m=None):
        return ChainMap({} if m is None else m, *self.maps)

    @property
    def parents(self):
        return ChainMap(*self.maps[1:])


class UserDict:
    def __init__(self, d=None, **kw):
        self.data = {}
        if d is not None:
            self.data.update(d)
        self.data.update(kw)

    def __getitem__(self, k):
        return self.data[k]

    def __setitem__(self, k, v):
        self.data[k] = v

    def __delitem__(self, k):
        del self.data[k]

    def __contains__(self, k):
        return k in self.data

    def __len__(self):
        return len(self.data)

    def __iter__(self):
        return iter(self.data)

    def get(self, k, d=None):
        return self.data.get(k, d)

    def pop(self, k, *d):
        return self.data.pop(k, *d)

    def items(self):
        return self.data.items()

    def keys(self):
        return self.data.keys()

    def values(self):
        return self.data.values()

    def setdefault(self, k, d=None):
        return self.data.setdefault(k, d)

    def update(self, *a, **kw):
        self.data.update(*a, **kw)

    def clear(self):
        self.data.clear()

    def popitem(self):
        return self.data.popitem()

    def copy(self):
        r = self.__class__()
        r.data.update(self.data)
        return r


class UserList:
    def __init__(self, items=None):
        self.data = list(items) if items is not None else []

    def __getitem__(self, i):
        return self.data[i]

    def __setitem__(self, i, v):
        self.data[i] = v

    def __delitem__(self, i):
        del self.data[i]

    def __contains__(self, x):
        return x in self.data

    def __len__(self):
        return len(self.data)

    def __iter__(self):
        return iter(self.data)

    def __eq__(self, other):
        return self.data == (other.data if isinstance(other, UserList) else other)

    def append(self, x):
        self.data.append(x)

    def insert(self, i, x):
        self.data.insert(i, x)

    def pop(self, i=-1):
        return self.data.pop(i)

    def remove(self, x):
        self.data.remove(x)

    def clear(self):
        self.data.clear()

    def copy(self):
        return self.__class__(self.data)

    def count(self, x):
        return self.data.count(x)

    def index(self, x, *a):
        return self.data.index(x, *a)

    def reverse(self):
        self.data.reverse()

    def sort(self, **kw):
        self.data.sort(**kw)

    def extend(self, xs):
        self.data.extend(xs)
