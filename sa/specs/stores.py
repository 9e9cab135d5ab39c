"""Drivers for the keyed stores and the FIFO."""
import asyncio
import sa
from aiok8s.cache import store, index, fifo
from specs.common import *

A, B, C = sa.tok("a"), sa.tok("b"), sa.tok("c")
X, Y = sa.tok("x"), sa.tok("y")


class Obj(Falsy):
    def __init__(self, key, vals=()):
        self.key = key
        self.vals = vals


class Bad:
    key = None


class NoKey(Exception):
    pass


def key_of(obj):
    if obj.__class__ is Bad:
        raise NoKey("no key")
    return obj.key


def vals_of(obj):
    return list(obj.vals)


def second_of(obj):
    """Has a value for objects for which the other function has none, and the other way round."""
    return [] if len(obj.vals) > 1 else [obj.vals[0]] if len(obj.vals) > 0 else [Y]


def ident(xs, ys):
    """Same objects, same number of times, any order."""
    xs, ys = list(xs), list(ys)
    if len(xs) != len(ys):
        return False
    for x in xs:
        for i in range(len(ys)):
            if ys[i] is x:
                del ys[i]
                break
        else:
            return False
    return True


def same_keys(xs, ys):
    xs, ys = list(xs), list(ys)
    if len(xs) != len(ys):
        return False
    for y in ys:
        if y not in xs:
            return False
        xs.remove(y)
    return True


class Spec:
    """key -> object, kept as two parallel slots in a fixed key order."""

    def __init__(self, keys):
        self.keys = keys
        self.obj = [None for _ in keys]

    def put(self, o):
        self.obj[self.keys.index(o.key)] = o

    def drop(self, k):
        self.obj[self.keys.index(k)] = None

    def all(self):
        return [o for o in self.obj if o is not None]

    def present(self):
        return [o.key for o in self.obj if o is not None]


async def reject(label, aw, bad):
    r, e = await outcome(aw)
    sa.check(isinstance(e, store.StoreKeyError) and e.obj is bad, label)


KEYERR = "an object without a key is rejected with StoreKeyError carrying it"
SHOW = "get, get_by_key, list and list_keys show exactly the last object stored per key"


def check_reads(s, sp):
    sa.check(ident(s.list(), sp.all()), SHOW, s.list())
    sa.check(same_keys(s.list_keys(), sp.present()), SHOW, s.list_keys())
    for i in range(len(sp.keys)):
        sa.check(s.get_by_key(sp.keys[i]) is sp.obj[i], SHOW)
        sa.check(s.get(Obj(sp.keys[i])) is sp.obj[i], SHOW)
    l = s.list()
    l.append(1)
    l.clear()
    k = s.list_keys()
    k.append(1)
    k.clear()
    sa.check(ident(s.list(), sp.all()), "lists returned are the caller's own copies")
    sa.check(same_keys(s.list_keys(), sp.present()), "lists returned are the caller's own copies")


async def s01_on(s, keys):
    sp = Spec(keys)
    while True:
        await sa.point()
        check_reads(s, sp)
        await sa.point()
        k = sa.choose(6, "operation")
        if k == 5:
            bad = Bad()
            j = sa.choose(5, "operation on an object without key")
            if j == 0:
                await reject(KEYERR, s.add(bad), bad)
            elif j == 1:
                await reject(KEYERR, s.update(bad), bad)
            elif j == 2:
                await reject(KEYERR, s.delete(bad), bad)
            elif j == 3:
                l = [Obj(keys[0]), bad]
                if sa.flag("bad one first"):
                    l.reverse()
                await reject(KEYERR, s.replace(l, "1"), bad)
            else:
                r, e = outcome_sync(s.get, bad)
                sa.check(isinstance(e, store.StoreKeyError) and e.obj is bad, KEYERR)
        elif k == 4:
            l = []
            for t in keys:
                n = sa.choose(3, "times in the list")
                for _ in range(n):
                    l.append(Obj(t))
            for i in range(len(keys)):
                sp.obj[i] = None
            for o in l:
                sp.put(o)
            given = list(l)
            await must("replace returns", s.replace(given, "1"))
            given.append(Obj(keys[0]))
            del given[0]
        elif k == 3:
            await must("resync returns", s.resync())
        else:
            o = Obj(keys[sa.choose(len(keys), "key")])
            if k == 0:
                await must("add returns", s.add(o))
                sp.put(o)
            elif k == 1:
                await must("update returns", s.update(o))
                sp.put(o)
            else:
                await must("deleting returns, also for an absent key", s.delete(o))
                sp.drop(o.key)


async def s01():
    await s01_on(store.new_store(key_of), (A, B))


async def s01_three():
    await s01_on(store.new_store(key_of), (A, B, C))


async def s01_indexer():
    await s01_on(store.new_indexer(key_of, index.Indexers({"v": vals_of})), (A, B))


async def s01_concurrent():
    """Operations in flight at the same time take effect as if run one after the other."""
    s = store.new_indexer(key_of, index.Indexers({"v": vals_of}))
    first = Obj(A, (X,))
    if sa.flag("object stored before"):
        await s.add(first)
        before = [first]
    else:
        before = []
    ops = []
    for i in range(2):
        k = sa.choose(4, "operation")
        o = Obj(A, (X,) if sa.flag("value") else (Y,))
        ops.append((k, o))
    ts = []
    for k, o in ops:
        c = s.add(o) if k == 0 else s.update(o) if k == 1 else s.delete(o) if k == 2 else s.replace([o], "1")
        ts.append(asyncio.ensure_future(c))
    await sa.settle()
    for t in ts:
        sa.check(t.done() and t.exception() is None, "concurrent operations complete")
    l = s.list()
    finals = []
    for order in (ops, [ops[1], ops[0]]):
        cur = list(before)
        for k, o in order:
            cur = [] if k == 2 else [o]
        finals.append(cur)
    sa.check(ident(l, finals[0]) or ident(l, finals[1]), "concurrent operations take effect one after the other", l)
    for v in (X, Y):
        want = [o for o in l if v in o.vals]
        got = await s.by_index("v", v)
        sa.check(ident(got, want), "by_index and index return exactly the matching stored objects, each once", got)


# ------------------------------------------------------------------ index lookups
CHOICES = [(), (X,), (Y,), (X, Y), (X, X), (Y, X, Y)]


async def check_index(s, sp, name, fn):
    M = "by_index and index return exactly the matching stored objects, each once"
    K = "index_keys returns exactly the keys of the matching stored objects"
    V = "list_index_func_values returns exactly the values in use"
    used = []
    for v in (X, Y):
        want = [o for o in sp.all() if v in fn(o)]
        if want:
            used.append(v)
        got = await must("by_index returns", s.by_index(name, v))
        sa.check(ident(got, want), M, v, got)
        got.append(1)
        ks = await must("index_keys returns", s.index_keys(name, v))
        sa.check(same_keys(ks, [o.key for o in want]), K, v, ks)
        ks.append(C)
    for q in CHOICES:
        probe = Obj(C, q)
        want = [o for o in sp.all() if any([v in fn(o) for v in fn(probe)])]
        got = await must("index returns", s.index(name, probe))
        sa.check(ident(got, want), M, got)
    vs = await must("list_index_func_values returns", s.list_index_func_values(name))
    sa.check(same_keys(vs, used), V, vs)


async def s02_on(indexers, names, keys):
    s = store.new_indexer(key_of, indexers)
    sp = Spec(keys)
    while True:
        await sa.point()
        for n, f in names:
            await check_index(s, sp, n, f)
        await sa.point()
        k = sa.choose(4, "operation")
        if k == 3:
            l = []
            for t in keys:
                if sa.flag("in the list"):
                    l.append(Obj(t, CHOICES[sa.choose(len(CHOICES), "index values")]))
            for i in range(len(keys)):
                sp.obj[i] = None
            for o in l:
                sp.put(o)
            await must("replace returns", s.replace(l, "1"))
        else:
            t = keys[sa.choose(len(keys), "key")]
            if k == 2:
                r, e = await outcome(s.delete(Obj(t)))
                sa.check(e is None, "store operations succeed whatever values the index functions return", e)
                sp.drop(t)
            else:
                o = Obj(t, CHOICES[sa.choose(len(CHOICES), "index values")])
                r, e = await outcome(s.add(o) if k == 0 else s.update(o))
                sa.check(e is None, "store operations succeed whatever values the index functions return", e)
                sp.put(o)


async def s02():
    await s02_on(index.Indexers({"v": vals_of}), [("v", vals_of)], (A, B))


async def s02_two():
    """Two index functions; they do not disturb each other."""
    global CHOICES
    await s02_on(index.Indexers({"v": vals_of, "first": second_of}), [("v", vals_of), ("first", second_of)], (A,))


class Meta(Full):
    def __init__(self, ns, name):
        self.namespace = ns
        self.name = name


class Typed(Falsy):
    def __init__(self, ns, name):
        self.metadata = Meta(ns, name)


async def s02_namespace():
    """The namespace index of the library, on typed objects and dictionaries."""
    def mk(ns, name):
        if sa.flag("dictionary"):
            return {"metadata": {"namespace": ns, "name": name}}
        return Typed(ns, name)
    s = store.new_indexer(store.meta_namespace_key_func,
                          index.Indexers({index.NAMESPACE_INDEX: index.meta_namespace_index_func}))
    objs = [mk("n1", "p"), mk("n2", "p"), mk("n1", "q")]
    for o in objs:
        await s.add(o)
    got = await s.by_index(index.NAMESPACE_INDEX, "n1")
    sa.check(ident(got, [objs[0], objs[2]]), "the namespace index returns the objects of a namespace")
    got = await s.index(index.NAMESPACE_INDEX, mk("n2", "zz"))
    sa.check(ident(got, [objs[1]]), "the namespace index returns the objects of a namespace")
    await s.delete(mk("n1", "p"))
    got = await s.by_index(index.NAMESPACE_INDEX, "n1")
    sa.check(ident(got, [objs[2]]), "the namespace index returns the objects of a namespace")
    sa.check(same_keys(await s.index_keys(index.NAMESPACE_INDEX, "n1"), ["n1/q"]),
             "the namespace index returns the objects of a namespace")


async def s03_namespace():
    """The names of the library's own indexes are taken like any other."""
    given = sa.flag("given at creation")
    init = index.Indexers({index.NAMESPACE_INDEX: index.meta_namespace_index_func}) if given else index.Indexers()
    s = store.new_indexer(store.meta_namespace_key_func, init)
    if not given:
        r, e = await outcome(s.add_indexers({index.NAMESPACE_INDEX: index.meta_namespace_index_func}))
        sa.check(e is None, "adding indexers with new names to an empty store succeeds", e)
    new = {index.NAMESPACE_INDEX: vals_of}
    if sa.flag("with another"):
        new["z"] = vals_of
    r, e = await outcome(s.add_indexers(new))
    sa.check(e is not None, "adding indexers fails on a name conflict or when objects are stored")
    got = s.get_indexers()
    sa.check(list(got) == [index.NAMESPACE_INDEX] and got[index.NAMESPACE_INDEX] is index.meta_namespace_index_func,
             "a failed add_indexers changes nothing", list(got))


async def s03():
    init = index.Indexers({"v": vals_of}) if sa.flag("indexer given at creation") else index.Indexers()
    have = list(init)
    fns = {"v": vals_of}
    s = store.new_indexer(key_of, init)
    items = 0
    objs = []
    if sa.flag("object stored"):
        o = Obj(A, (X,))
        await s.add(o)
        objs.append(o)
        if sa.flag("and deleted"):
            await s.delete(o)
            objs = []
    for _ in range(2):
        await sa.point()
        new = index.Indexers()
        j = sa.choose(4, "new names")
        if j == 1:
            new["w"] = vals_of
        elif j == 2:
            new["v"] = second_of
        elif j == 3:
            new["u"] = second_of
            new["v"] = vals_of
        names = list(new)
        r, e = await outcome(s.add_indexers(new))
        clash = any([n in have for n in names])
        if objs or clash:
            sa.check(e is not None, "adding indexers fails on a name conflict or when objects are stored", names)
            sa.check(same_keys(list(s.get_indexers()), have), "a failed add_indexers changes nothing")
            if "v" in have:
                sa.check(s.get_indexers()["v"] is fns["v"], "a failed add_indexers changes nothing")
        else:
            sa.check(e is None, "adding indexers with new names to an empty store succeeds", names, e)
            have = have + names
            fns.update(new)
            sa.check(same_keys(list(s.get_indexers()), have), "added indexers are defined")
    if not objs:
        o = Obj(B, (X, Y))
        await s.add(o)
        objs.append(o)
    for n in ("v", "w", "u", "zz"):
        if n in have:
            fn = fns[n]
            for v in (X, Y):
                got = await s.by_index(n, v)
                sa.check(ident(got, [o for o in objs if v in fn(o)]), "an added indexer works", n)
        else:
            for c in (s.by_index(n, X), s.index_keys(n, X), s.index(n, objs[0])):
                r, e = await outcome(c)
                sa.check(isinstance(e, KeyError) and not isinstance(e, store.StoreKeyError),
                         "an index that was never defined raises KeyError", n, r)


# ------------------------------------------------------------------ FIFO
class Boom(Exception):
    pass


async def pop_one(q, mode):
    """pop with a processing function behaving per mode; (returned, exception, handed out)."""
    seen = []
    cause = Boom("inner")

    def process(o):
        seen.append(o)
        if mode == 1:
            raise fifo.RequeueError
        if mode == 2:
            raise fifo.RequeueError from cause
        if mode == 3:
            raise cause
    r, e = await must("pop returns when an object is pending", outcome(q.pop(process)))
    return r, e, seen, cause


async def s04():
    q = fifo.FIFO(key_of)
    keys = (A, B)
    pend = []                      # keys pending, in order
    obj = [None, None]
    while True:
        await sa.point()
        sa.check(same_keys(q.list_keys(), pend), "the queue lists exactly the pending objects")
        sa.check(ident(q.list(), [obj[keys.index(pk)] for pk in pend]), "the queue lists exactly the pending objects")
        for i in (0, 1):
            sa.check(q.get_by_key(keys[i]) is obj[i], "get shows the latest pending object")
            sa.check(q.get(Obj(keys[i])) is obj[i], "get shows the latest pending object")
        k = sa.choose(8, "operation")
        if k == 7:
            bad = Bad()
            j = sa.choose(6, "operation on an object without key")
            if j == 5:
                r, e = outcome_sync(q.get, bad)
                sa.check(isinstance(e, store.StoreKeyError) and e.obj is bad, KEYERR)
                continue
            c = q.add(bad) if j == 0 else q.update(bad) if j == 1 else q.delete(bad) if j == 2 else \
                q.add_if_not_present(bad) if j == 3 else q.replace([Obj(A), bad], "1")
            await reject(KEYERR, c, bad)
        elif k == 6:
            l = []
            for t in (keys if sa.flag("order") else (B, A)):
                if sa.flag("in the list"):
                    l.append(Obj(t))
            await must("replace returns", q.replace(list(l), "1"))
            pend = [o.key for o in l]
            obj = [None, None]
            for o in l:
                obj[keys.index(o.key)] = o
        elif k == 5:
            await must("resync returns", q.resync())
        elif k == 4:
            sa.assume(len(pend) > 0)
            mode = sa.choose(4, "processing outcome")
            r, e, seen, cause = await pop_one(q, mode)
            sa.check(len(seen) == 1, "pop hands out one object", seen)
            o = seen[0]
            t = o.key
            sa.check(t in pend, "deleted objects are not handed out", t)
            sa.check(t == pend[0], "objects are handed out in the order they became pending", t, pend)
            sa.check(o is obj[keys.index(t)], "pop hands out the latest object of the key")
            pend.remove(t)
            if mode == 0:
                sa.check(e is None and r is o, "pop returns the object")
            elif mode == 1:
                sa.check(e is None and r is o, "a plain requeue is not an error of pop")
            else:
                sa.check(isinstance(e, fifo.ProcessError) and e.item is o and e.__cause__ is cause,
                         "a processing error reaches the caller of pop with its object and cause", e)
            if mode in (1, 2):
                pend.append(t)
            else:
                obj[keys.index(t)] = None
        else:
            i = sa.choose(2, "key")
            o = Obj(keys[i])
            if k == 0 or k == 3:
                if k == 0:
                    await must("add returns", q.add(o))
                else:
                    await must("update returns", q.update(o))
                if keys[i] not in pend:
                    pend.append(keys[i])
                obj[i] = o
            elif k == 1:
                await must("add_if_not_present returns", q.add_if_not_present(o))
                if keys[i] not in pend:
                    pend.append(keys[i])
                    obj[i] = o
            else:
                r, e = await must("delete returns", outcome(q.delete(o)))
                sa.check(e is None, "deleting is harmless, also for an absent object", e)
                if keys[i] in pend:
                    pend.remove(keys[i])
                obj[i] = None


async def s05_sync():
    """has_synced against the first population; no second replace."""
    q = fifo.FIFO(key_of)
    sa.check(q.has_synced() == False, "has_synced is false before the first population")
    keys = (A, B)
    j = sa.choose(5, "first operation")
    first = []
    if j == 0:
        for t in keys:
            for _ in range(sa.choose(3, "times in the list")):
                first.append(t)
        await q.replace([Obj(t) for t in first], "1")
    elif j == 1:
        await q.add(Obj(A))
    elif j == 2:
        await q.update(Obj(A))
    elif j == 3:
        await outcome(q.delete(Obj(A)))
    else:
        await q.add_if_not_present(Obj(A))
    left = [t for t in keys if t in first]        # of the first list, not yet popped
    pend = list(left) if j == 0 else [] if j == 3 else [A]
    while True:
        await sa.point()
        if left:
            sa.check(q.has_synced() == False, "has_synced stays false until the first list was popped or deleted", left)
        else:
            sa.check(q.has_synced() == True, "has_synced is true once the first list was popped or deleted")
        k = sa.choose(4, "operation")
        t = keys[sa.choose(2, "key")]
        if k == 0:
            sa.assume(t not in pend or t not in left)
            await q.add(Obj(t))
            if t not in pend:
                pend.append(t)
        elif k == 1:
            await outcome(q.delete(Obj(t)))
            if t in pend:
                pend.remove(t)
            if t in left:
                left.remove(t)
        elif k == 2:
            sa.assume(len(pend) > 0)
            r, e, seen, cause = await pop_one(q, 0)
            x = seen[0].key
            pend.remove(x)
            if x in left:
                left.remove(x)
        else:
            sa.assume(not left)
            await q.replace([Obj(t)], "2")
            pend = [t]


async def s05_close():
    q = fifo.FIFO(key_of)
    n = sa.choose(3, "pending objects")
    for i in range(n):
        await q.add(Obj((A, B)[i]))
    early = []
    for _ in range(sa.choose(3, "waiting pops")):
        early.append(asyncio.ensure_future(outcome(q.pop(lambda o: None))))
    if sa.flag("pops wait first"):
        await sa.settle()
    sa.check(q.is_closed() == False, "is_closed reports the close")
    await must("close returns", q.close())
    sa.check(q.is_closed() == True, "is_closed reports the close")
    await sa.settle()
    for t in early:
        sa.check(t.done(), "a blocked pop is released by close")
    late = []
    for _ in range(3):
        late.append(await must("pop on a closed queue returns", outcome(q.pop(lambda o: None))))
    got = [t.result() for t in early] + late
    objs = [r for r, e in got if e is None]
    sa.check(len(objs) == n, "pending objects can still be popped after close", objs)
    for r, e in got:
        sa.check(e is None or isinstance(e, fifo.FIFOClosedError), "pop on an empty closed queue raises FIFOClosedError", e)
    await must("close may be repeated", q.close())


async def s05_wait():
    """A pop waiting on an empty queue gets the object that arrives, each object exactly one of them."""
    q = fifo.FIFO(key_of)
    pops = [asyncio.ensure_future(q.pop(lambda o: None)) for _ in range(2)]
    await sa.settle()
    for p in pops:
        sa.check(not p.done(), "pop waits while nothing is pending")
    cancelled = sa.flag("one waiting pop is cancelled")
    if cancelled:
        pops[0].cancel()
        if sa.flag("and has ended"):
            await sa.settle()
    o = Obj(A)
    k = sa.choose(3, "arrival")
    if k == 0:
        await q.add(o)
    elif k == 1:
        await q.add_if_not_present(o)
    else:
        await q.replace([o], "1")
    await sa.settle()
    got = [p.result() for p in pops if p.done() and not p.cancelled() and p.exception() is None]
    sa.check(ident(got, [o]), "a waiting pop is given the object that arrives, once", got)
