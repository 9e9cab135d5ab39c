class itemgetter:
    def __init__(self, *items):
        self.items = items

    def __call__(self, o):
        if len(self.items) == 1:
            return o[self.items[0]]
        return tuple([o[i] for i in self.items])


class attrgetter:
    def __init__(self, *names):
        self.names = names

    def _one(self, o, name):
        for p in name.split("."):
            o = getattr(o, p)
        return o

    def __call__(self, o):
        if len(self.names) == 1:
            return self._one(o, self.names[0])
        return tuple([self._one(o, n) for n in self.names])


class methodcaller:
    def __init__(self, name, *args, **kw):
        self.name, self.args, self.kw = name, args, kw

    def __call__(self, o):
        return getattr(o, self.name)(*self.args, **self.kw)


def eq(a, b): return a == b
def ne(a, b): return a != b
def lt(a, b): return a < b
def le(a, b): return a <= b
def gt(a, b): return a > b
def ge(a, b): return a >= b
def add(a, b): return a + b
def sub(a, b): return a - b
def mul(a, b): return a * b
def truediv(a, b): return a / b
def mod(a, b): return a % b
def not_(a): return not a
def truth(a): return bool(a)
def is_(a, b): return a is b
def is_not(a, b): return a is not b
def and_(a, b): return a & b
def or_(a, b): return a | b
def xor(a, b): return a ^ b
def neg(a): return -a
def contains(a, b): return b in a
def getitem(a, b): return a[b]
def setitem(a, b, c): a[b] = c
def delitem(a, b): del a[b]
