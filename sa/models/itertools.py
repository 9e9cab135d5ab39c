class count:
    def __init__(self, start=0, step=1):
        self._n = start
        self._step = step

    def __iter__(self):
        return self

    def __next__(self):
        n = self._n
        self._n = n + self._step
        return n


class _Chain:
    def __call__(self, *its):
        return _chain(its)

    def from_iterable(self, its):
        return _chain(its)


def _chain(its):
    for it in its:
        for x in it:
            yield x


chain = _Chain()


def islice(it, *args):
    if len(args) == 1:
        start, stop, step = 0, args[0], 1
    elif len(args) == 2:
        start, stop, step = args[0] or 0, args[1], 1
    else:
        start, stop, step = args[0] or 0, args[1], args[2] or 1
    i = 0
    nxt = start
    if stop is not None and i >= stop:
        return
    for x in it:
        if i == nxt:
            yield x
            nxt += step
        i += 1
        if stop is not None and i >= stop:
            return


def repeat(x, times=None):
    if times is None:
        while True:
            yield x
    else:
        for _ in range(times):
            yield x


def cycle(it):
    saved = list(it)
    while saved:
        for x in saved:
            yield x


def takewhile(p, it):
    for x in it:
        if not p(x):
            return
        yield x


def dropwhile(p, it):
    drop = True
    for x in it:
        if drop and p(x):
            continue
        drop = False
        yield x


def filterfalse(p, it):
    for x in it:
        if not (p(x) if p is not None else x):
            yield x


def starmap(f, it):
    for x in it:
        yield f(*x)


def accumulate(it, func=None):
    total = None
    first = True
    for x in it:
        if first:
            total = x
            first = False
        else:
            total = total + x if func is None else func(total, x)
        yield total


def zip_longest(*its, fillvalue=None):
    ls = [list(i) for i in its]
    n = max([len(x) for x in ls]) if ls else 0
    for i in range(n):
        yield tuple([x[i] if i < len(x) else fillvalue for x in ls])


def groupby(it, key=None):
    cur = []
    ck = None
    started = False
    for x in it:
        k = x if key is None else key(x)
        if started and k == ck:
            cur.append(x)
        else:
            if started:
                yield ck, iter(cur)
            cur, ck, started = [x], k, True
    if started:
        yield ck, iter(cur)


def product(*its, repeat=1):
    its = tuple([list(it) for it in its]) * repeat
    out = [()]
    for it in its:
        vals = list(it)
        out = [o + (v,) for o in out for v in vals]
    return iter(out)


def combinations(it, r):
    pool = list(it)
    out = [()]
    starts = [0]
    for _ in range(r):
        o2, s2 = [], []
        for o, st in zip(out, starts):
            for i in range(st, len(pool)):
                o2.append(o + (pool[i],))
                s2.append(i + 1)
        out, starts = o2, s2
    return iter(out)


def permutations(it, r=None):
    pool = list(it)
    out = [((), ())]
    for _ in range(len(pool) if r is None else r):
        out = [(o + (pool[i],), u + (i,)) for o, u in out for i in range(len(pool)) if i not in u]
    return iter([o for o, u in out])


def compress(data, selectors):
    return iter([d for d, s in zip(data, selectors) if s])


def batched(it, n):
    l = list(it)
    return iter([tuple(l[i:i + n]) for i in range(0, len(l), n)])


def tee(it, n=2):
    l = list(it)
    return tuple([iter(l) for _ in range(n)])


def pairwise(it):
    l = list(it)
    return zip(l, l[1:])
