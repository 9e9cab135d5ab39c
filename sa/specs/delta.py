"""Drivers for the DeltaFIFO."""
import asyncio
import sa
from aiok8s.cache import store, fifo, delta_fifo
from aiok8s.cache.delta_fifo import DeltaFIFO, DeltaType, Delta, Deltas, DeletedFinalStateUnknown
from specs.common import *
from specs.stores import Obj, Bad, NoKey, Boom, key_of, ident, same_keys, reject, A, B, C

KEYS = (A, B)


class Lookup(Exception):
    pass


class Known:
    """A known-objects store under the driver's control; lookups of marked keys fail, or find nothing though the key is listed."""

    def __init__(self):
        self.obj = [None, None]
        self.bad = [0, 0]

    def list_keys(self):
        return [KEYS[i] for i in (0, 1) if self.obj[i] is not None or self.bad[i]]

    def get_by_key(self, key):
        i = KEYS.index(key)
        if self.bad[i]:
            if self.bad[i] == 2:
                return None
            raise Lookup
        return self.obj[i]


def plain(t, o):
    return ("plain", t, o)


def tomb(k, objs):
    return ("tomb", k, tuple(objs))


def is_del(e):
    return e[0] == "tomb" or e[0] == "either" or e[1] is DeltaType.DELETED


def is_tomb(e):
    return e[0] == "tomb" or e[0] == "either" and is_tomb(e[1])


def given_delete(k, o):
    """The entry expected for a deletion given by the client."""
    if isinstance(o, DeletedFinalStateUnknown):
        return tomb(k, [o.obj])
    return plain(DeltaType.DELETED, o)


def append(lst, e):
    if lst and is_del(e) and is_del(lst[-1]):
        p = lst[-1]
        if is_tomb(p) and not is_tomb(e):
            lst[-1] = e
        elif is_tomb(p) == is_tomb(e):
            lst[-1] = ("either", p, e)
        return
    lst.append(e)


def match(d, e):
    if e[0] == "either":
        return match(d, e[1]) or match(d, e[2])
    if e[0] == "plain":
        return d.type is e[1] and d.object is e[2]
    if d.type is not DeltaType.DELETED or not isinstance(d.object, DeletedFinalStateUnknown) or d.object.key != e[1]:
        return False
    for o in e[2]:
        if d.object.obj is o:
            return True
    return False


def settled(d, e):
    """The expectation narrowed to what was observed."""
    if e[0] == "either":
        return settled(d, e[1] if match(d, e[1]) else e[2])
    if e[0] == "tomb":
        return ("tomb", e[1], (d.object.obj,))
    return e


def match_all(ds, es):
    return len(ds) == len(es) and all([match(ds[i], es[i]) for i in range(len(es))])


def last_objects(es):
    """Objects a tombstone following these entries may carry."""
    e = es[-1]
    if e[0] == "either":
        return last_objects([e[1]]) + last_objects([e[2]])
    if e[0] == "tomb":
        return list(e[2])
    return [e[2]]


class Model:
    def __init__(self):
        self.d = [[], []]          # expected entries per key
        self.groups = []           # pending keys in order; keys of one group in any order

    def pending(self):
        return [KEYS[i] for i in (0, 1) if self.d[i]]

    def put(self, k, e, group=None):
        i = KEYS.index(k)
        if not self.d[i]:
            if group is None:
                self.groups.append([k])
            else:
                group.append(k)
        append(self.d[i], e)

    def commit(self, group):
        if group:
            group.sort(key=KEYS.index)
            self.groups.append(group)

    def take(self, k):
        i = KEYS.index(k)
        es = self.d[i]
        self.d[i] = []
        sa.check(bool(es), "no key is handed out without changes", k)
        sa.check(k in self.groups[0], "keys are handed out in the order they became pending", k, self.groups)
        self.groups[0].remove(k)
        if not self.groups[0]:
            self.groups.pop(0)
        return es

    def size(self):
        return len(self.d[0]) + len(self.d[1])


EXACT = "pop hands out every change of the key since its last pop, in order, each with its own object"


async def pop_one(q, mode):
    seen = []
    cause = Boom("inner")

    async def process(ds):
        seen.append(ds)
        if mode == 1:
            raise fifo.RequeueError
        if mode == 2:
            raise fifo.RequeueError from cause
        if mode == 3:
            raise cause
        if mode == 4:
            await asyncio.sleep(0)
    r, e = await must("pop returns when a change is pending", outcome(q.pop(process)))
    return r, e, seen, cause


def key_in(ds):
    return ds[0].object.key


async def exact(known, limit, dup=False, fail=False, nk=2):
    """Every operation against an exact model of the pending changes."""
    q = DeltaFIFO(key_of, known) if known is not None else DeltaFIFO(key_of)
    m = Model()
    while True:
        await sa.point()
        sa.check(m.size() <= limit, "internal")
        sa.check(same_keys(q.list_keys(), m.pending()), "the queue lists exactly the keys with pending changes")
        for i in (0, 1):
            ds = q.get_by_key(KEYS[i])
            if m.d[i]:
                sa.check(match_all(ds, m.d[i]), "get shows the pending changes of the key", ds)
                m.d[i] = [settled(ds[j], m.d[i][j]) for j in range(len(ds))]
                ds.append(1)
            else:
                sa.check(not ds, "get shows the pending changes of the key", ds)
        VIEW = "list shows the newest object of every pending key"
        l = q.list()
        sa.check(len(l) == len(m.pending()), VIEW)
        for i in (0, 1):
            ds = q.get_by_key(KEYS[i])
            if ds:
                sa.check(any([x is ds[-1].object for x in l]), VIEW, KEYS[i])
            same = q.get(Obj(KEYS[i]))
            sa.check(not same and not ds or len(same) == len(ds) and all([same[j] is ds[j] for j in range(len(ds))]),
                     "get shows the pending changes of the key", same, ds)
        l.clear()
        q.list_keys().clear()
        l = ds = same = None
        await sa.point()
        k = sa.choose(8 if known is not None else 6, "operation")
        sa.assume(k == 4 or k > 5 or m.size() < limit)
        if k == 0:
            t = KEYS[sa.choose(nk, "key")]
            o = Obj(t)
            if sa.flag("add rather than update"):
                await must("add returns", q.add(o))
                m.put(t, plain(DeltaType.ADDED, o))
            else:
                await must("update returns", q.update(o))
                m.put(t, plain(DeltaType.UPDATED, o))
            sa.assume(m.size() <= limit)
        elif k == 1:
            i = sa.choose(nk, "key")
            t = KEYS[i]
            o = Obj(t)
            if sa.flag("delete by tombstone"):
                o = DeletedFinalStateUnknown(t, o)
            await must("delete returns", q.delete(o))
            if m.d[i] or known is not None and known.bad[i] != 2 and (known.obj[i] is not None or known.bad[i]):
                m.put(t, given_delete(t, o))
            sa.assume(m.size() <= limit)
        elif k == 2:
            l = []
            for t in (KEYS[:nk] if nk == 1 or sa.flag("order") else (B, A)):
                n = sa.choose(3 if dup else 2, "times in the list")
                for _ in range(n):
                    l.append(Obj(t))
            await must("replace returns", q.replace(list(l), "1"))
            before = [list(x) for x in m.d]
            for o in l:
                m.put(o.key, plain(DeltaType.SYNC, o))
            g = []
            listed = [o.key for o in l]
            for i in (0, 1):
                t = KEYS[i]
                if t in listed:
                    continue
                objs = []
                if before[i]:
                    objs = objs + last_objects(before[i])
                if known is not None and (known.obj[i] is not None or known.bad[i]):
                    objs.append(None if known.bad[i] else known.obj[i])
                if objs:
                    m.put(t, tomb(t, objs), g)
            m.commit(g)
            sa.assume(m.size() <= limit)
        elif k == 3:
            await must("resync returns", q.resync())
            if known is not None:
                g = []
                for i in (0, 1):
                    if not m.d[i] and known.obj[i] is not None and not known.bad[i]:
                        m.put(KEYS[i], plain(DeltaType.SYNC, known.obj[i]), g)
                m.commit(g)
            sa.assume(m.size() <= limit)
        elif k == 4:
            sa.assume(m.size() > 0)
            mode = sa.choose(5, "processing outcome")
            r, e, seen, cause = await pop_one(q, mode)
            sa.check(len(seen) == 1, "pop processes one key", seen)
            ds = seen[0]
            sa.check(isinstance(ds, Deltas) and len(ds) > 0, "no key is handed out without changes", ds)
            t = key_in(ds)
            es = m.take(t)
            sa.check(match_all(ds, es), EXACT, ds, es)
            if mode in (0, 1, 4):
                sa.check(e is None and match_all(r, es), "pop returns the processed changes", e)
            else:
                sa.check(isinstance(e, fifo.ProcessError) and match_all(e.item, es) and e.__cause__ is cause,
                         "a processing error reaches the caller of pop with the changes and the cause", e)
            if mode in (1, 2):
                m.d[KEYS.index(t)] = es
                m.groups.append([t])
        elif k == 5:
            t = KEYS[sa.choose(nk, "key")]
            o = Obj(t)
            i = KEYS.index(t)
            c = q.add_if_not_present(Deltas([Delta(DeltaType.ADDED, o)]))
            await must("add_if_not_present returns", c)
            if not m.d[i]:
                m.put(t, plain(DeltaType.ADDED, o))
            sa.assume(m.size() <= limit)
        elif k == 6:
            i = sa.choose(nk, "key")
            known.obj[i] = Obj(KEYS[i]) if sa.flag("becomes known") else None
            known.bad[i] = 0
        else:
            sa.assume(fail)
            known.bad[sa.choose(nk, "key")] = 1 + sa.choose(2, "nothing found")


async def f01():
    await exact(None, 2)


async def f01_one():
    await exact(None, 3, dup=True, nk=1)


async def f01_deep():
    await exact(None, 3)


async def f01_known():
    await exact(Known(), 2)


async def f01_known_one():
    await exact(Known(), 3, fail=True, nk=1)


async def f05_fail():
    await exact(Known(), 2, fail=True)


# ------------------------------------------------------------------ convergence
async def f02_on(limit, dup=False):
    """A consumer that applies what it pops converges to the listed objects."""
    view = store.new_store(key_of)
    q = DeltaFIFO(key_of, view)
    want = [None, None]

    async def apply(ds):
        for d in ds:
            if d.type is DeltaType.DELETED:
                o = d.object
                if isinstance(o, DeletedFinalStateUnknown):
                    sa.check(not isinstance(o.obj, DeletedFinalStateUnknown), "a tombstone carries the last known object, not a tombstone")
                await view.delete(o)
            else:
                await view.update(d.object)

    def size():
        n = 0
        for t in KEYS:
            ds = q.get_by_key(t)
            n += len(ds) if ds else 0
        return n
    while True:
        await sa.point()
        if size() == 0:
            for i in (0, 1):
                sa.check(view.get_by_key(KEYS[i]) is want[i],
                         "once everything is popped the consumer holds exactly the listed and changed objects", KEYS[i])
        k = sa.choose(5, "operation")
        sa.assume(k == 0 or size() < limit)
        if k == 0:
            await must("pop returns when a change is pending", q.pop(apply)) if size() > 0 else sa.assume(False)
        elif k == 1:
            i = sa.choose(2, "key")
            o = Obj(KEYS[i])
            if sa.flag("add rather than update"):
                await must("add returns", q.add(o))
            else:
                await must("update returns", q.update(o))
            want[i] = o
        elif k == 2:
            i = sa.choose(2, "key")
            await must("delete returns", q.delete(Obj(KEYS[i])))
            want[i] = None
        elif k == 3:
            want = [None, None]
            l = []
            for t in (KEYS if sa.flag("order") else (B, A)):
                for _ in range(sa.choose(3 if dup else 2, "times in the list")):
                    l.append(Obj(t))
            for o in l:
                want[KEYS.index(o.key)] = o
            await must("replace returns", q.replace(l, "1"))
        else:
            await must("resync returns", q.resync())
        sa.assume(size() <= limit)


async def f02():
    await f02_on(3)


async def f02_deep():
    await f02_on(4, True)


# ------------------------------------------------------------------ has_synced
async def f03_on(first_only):
    known = Known()
    if sa.flag("consumer already knows an object"):
        known.obj[0] = Obj(A)
    q = DeltaFIFO(key_of, known) if sa.flag("known objects given") else DeltaFIFO(key_of)
    uses = q.list_keys() if False else None
    sa.check(q.has_synced() == False, "has_synced is false before the first population")
    j = sa.choose(5, "first operation")
    left = []
    if j == 0:
        l = []
        for t in KEYS:
            for _ in range(sa.choose(3, "times in the list")):
                l.append(Obj(t))
        await q.replace(l, "1")
    elif j == 1:
        await q.add(Obj(A))
    elif j == 2:
        await q.update(Obj(B))
    elif j == 3:
        await q.delete(Obj(A))
    else:
        await q.add_if_not_present(Deltas([Delta(DeltaType.ADDED, Obj(A))]))
    if j == 0:
        left = [t for t in KEYS if q.get_by_key(t)]
    T = "has_synced is true once the first list was processed, and stays true"
    F = "has_synced stays false until every key of the first list was popped and processed"
    def look():
        if left:
            sa.check(q.has_synced() == False, F, left)
        else:
            sa.check(q.has_synced() == True, T)

    async def process(ds):
        look()
        if sa.flag("processing takes a while"):
            await asyncio.sleep(0)
            look()
        if sa.flag("processing fails"):
            raise Boom
    n = 0
    while True:
        await sa.point()
        look()
        k = sa.choose(4, "operation")
        t = KEYS[sa.choose(2, "key")]
        if k == 0:
            sa.assume(q.get_by_key(t) is None or len(q.get_by_key(t)) < 2)
            await q.add(Obj(t))
        elif k == 1:
            sa.assume(q.get_by_key(t) is None or len(q.get_by_key(t)) < 2)
            await q.delete(Obj(t))
        elif k == 2:
            sa.assume(len(q.list_keys()) > 0)
            before = q.list_keys()
            p = asyncio.ensure_future(outcome(q.pop(process)))
            while not p.done():
                look()
                await asyncio.sleep(0)
            now = q.list_keys()
            for x in before:
                if x not in now and x in left:
                    left.remove(x)
        else:
            sa.assume(not left and q.get_by_key(t) is None)
            await q.replace([Obj(t)], "2")
            sa.assume(len(q.list()) < 3)


async def f03():
    await f03_on(True)


# ------------------------------------------------------------------ failures, close, keys
async def f04_close():
    q = DeltaFIFO(key_of)
    n = sa.choose(3, "pending keys")
    for i in range(n):
        await q.add(Obj(KEYS[i]))
    early = []

    async def process(ds):
        await asyncio.sleep(0)
    for _ in range(sa.choose(3, "waiting pops")):
        early.append(asyncio.ensure_future(outcome(q.pop(process))))
    if sa.flag("pops wait first"):
        await sa.settle()
    sa.check(q.is_closed() == False, "is_closed reports the close")
    await must("close returns", q.close())
    sa.check(q.is_closed() == True, "is_closed reports the close")
    await sa.settle()
    for t in early:
        sa.check(t.done(), "a blocked pop is released by close")
    late = []
    for _ in range(3):
        late.append(await must("pop on a closed queue returns", outcome(q.pop(process))))
    got = [t.result() for t in early] + late
    objs = [r for r, e in got if e is None]
    sa.check(len(objs) == n, "pending changes can still be popped after close", objs)
    for r, e in got:
        sa.check(e is None or isinstance(e, fifo.FIFOClosedError), "pop on an empty closed queue raises FIFOClosedError", e)
    await must("close may be repeated", q.close())


async def f04_wait():
    """Waiting pops: every change goes to exactly one of them; cancelled ones take nothing along."""
    q = DeltaFIFO(key_of)
    seen = []

    async def process(ds):
        seen.append(key_in(ds))
    pops = [asyncio.ensure_future(q.pop(process)) for _ in range(2)]
    await sa.settle()
    if sa.flag("one waiting pop is cancelled"):
        pops[0].cancel()
        if sa.flag("and has ended"):
            await sa.settle()
    o = Obj(A)
    k = sa.choose(4, "arrival")
    if k == 0:
        await q.add(o)
    elif k == 1:
        await q.update(o)
    elif k == 2:
        await q.replace([o], "1")
    else:
        await q.add_if_not_present(Deltas([Delta(DeltaType.ADDED, o)]))
    await sa.settle()
    sa.check(seen == [A], "a waiting pop is given the change that arrives, once", seen)


async def f04_requeue():
    """Changes arriving while an earlier pop is being processed survive whatever becomes of that pop."""
    q = DeltaFIFO(key_of)
    o = Obj(A)
    n = Obj(A)
    await q.add(o)
    mode = sa.choose(4, "processing outcome")
    others = sa.choose(3, "other keys pending")
    if others:
        await q.add(Obj(B))
    if others > 1:
        await q.add(Obj(C))
    cause = Boom("inner")
    started = []

    async def process(ds):
        started.append(ds)
        for _ in range(sa.choose(3, "steps")):
            await asyncio.sleep(0)
        if mode == 1:
            raise fifo.RequeueError
        if mode == 2:
            raise fifo.RequeueError from cause
        if mode == 3:
            raise cause
    p = asyncio.ensure_future(outcome(q.pop(process)))
    while not started:
        await asyncio.sleep(0)
    a = asyncio.ensure_future(q.update(n))
    await sa.settle()
    sa.check(p.done(), "pop returns after processing")
    sa.check(a.done(), "changes can be queued once processing is over")
    r, e = p.result()
    if mode < 2:
        sa.check(e is None and r is started[0], "pop returns what was processed")
    else:
        sa.check(isinstance(e, fifo.ProcessError) and e.item is started[0] and e.__cause__ is cause,
                 "a processing error reaches the caller of pop, with the changes and the cause", e)
    sa.check(same_keys(q.list_keys(), [A, B, C][:others + 1]), "other pending changes stay pending")
    ds = q.get_by_key(A)
    sa.check(ds is not None and ds[-1].object is n, "a requeue never overwrites newer pending changes", ds)
    if mode in (1, 2):
        sa.check(len(ds) == 1 or ds[0].object is o and len(ds) == 2, "a requeue never overwrites newer pending changes", ds)
    else:
        sa.check(len(ds) == 1, "changes are queued again only if a requeue was asked for", ds)


async def f04_closed_requeue():
    """A requeue asked for after the close: the changes are still there to be popped."""
    q = DeltaFIFO(key_of)
    o, other = Obj(A), Obj(B)
    await q.add(o)
    two = sa.flag("another key is pending")
    if two:
        await q.add(other)
    await q.close()
    cause = Boom("inner") if sa.flag("with a cause") else None

    async def again(ds):
        if cause is not None:
            raise fifo.RequeueError from cause
        raise fifo.RequeueError
    left = [o, other] if two else [o]
    for _ in range(3):
        r, e = await must("pop returns when a change is pending", outcome(q.pop(again)))
        sa.check((e is not None) == (cause is not None), "a processing error reaches the caller of pop with the changes and the cause", e)
        left.append(left.pop(0))
        sa.check(same_keys(q.list_keys(), [x.key for x in left]), "changes are queued again if a requeue was asked for, closed or not")
    got = []

    async def good(ds):
        got.append(ds)
    while left:
        await must("pop returns when a change is pending", q.pop(good))
        sa.check(len(got[-1]) == 1 and got[-1][0].object is left.pop(0), "pending changes can still be popped after close")
    r, e = await must("pop on a closed queue returns", outcome(q.pop(good)))
    sa.check(isinstance(e, fifo.FIFOClosedError), "pop on an empty closed queue raises FIFOClosedError", e)


async def f04_cancel():
    """Cancelling a pop while it processes ends it, and the queue stays usable."""
    q = DeltaFIFO(key_of)
    await q.add(Obj(A))
    started = []

    async def process(ds):
        started.append(ds)
        await asyncio.Event().wait()
    p = asyncio.ensure_future(q.pop(process))
    await sa.settle()
    sa.check(len(started) == 1, "pop processes the pending changes")
    p.cancel()
    await sa.settle()
    sa.check(p.done() and p.cancelled(), "cancelling a pop while processing ends it with the cancellation")
    await must("the queue stays usable", q.add(Obj(B)))


async def f04_keys():
    known = Known()
    q = DeltaFIFO(key_of, known) if sa.flag("known objects given") else DeltaFIFO(key_of)
    o = Obj(A)
    if sa.flag("something pending"):
        await q.add(o)
    if sa.flag("something known"):
        known.obj[1] = Obj(B)
    keys = list(q.list_keys())
    deltas = q.get_by_key(A)
    synced = q.has_synced()
    bad = Bad()
    j = sa.choose(7, "operation on an object without key")
    M = "an object without a key is rejected with StoreKeyError by every operation"
    if j == 5:
        r, e = outcome_sync(q.get, bad)
    elif j == 6:
        r, e = await outcome(q.add_if_not_present(Deltas([])))
    else:
        l = [Obj(A), bad] if sa.flag("bad one last") else [bad, Obj(A)]
        c = q.add(bad) if j == 0 else q.update(bad) if j == 1 else q.delete(bad) if j == 2 else q.replace(l, "1") if j == 3 \
            else q.add_if_not_present(Deltas([Delta(DeltaType.ADDED, bad)]))
        r, e = await outcome(c)
    if j == 6:
        sa.check(e is not None, "empty changes are rejected", r)
    else:
        sa.check(isinstance(e, store.StoreKeyError), M, e)
    U = "a rejected operation leaves the queue unchanged"
    sa.check(same_keys(q.list_keys(), keys), U, q.list_keys())
    after = q.get_by_key(A)
    sa.check((after is None) == (deltas is None), U)
    if after is not None:
        sa.check(len(after) == len(deltas), U, after)
    sa.check(q.has_synced() == synced, U)


async def f05():
    """Resync: all keys, whatever is known or pending, with lookups failing."""
    known = Known()
    given = sa.flag("known objects given")
    q = DeltaFIFO(key_of, known) if given else DeltaFIFO(key_of)
    pend = [None, None]
    if given and sa.flag("first list still pending"):
        for i in (0, 1):
            pend[i] = Obj(KEYS[i]) if sa.flag("listed") else None
        await q.replace([o for o in pend if o is not None], "1")
    for i in (0, 1):
        k = sa.choose(4, "known state")
        if k == 1 or k == 3:
            known.obj[i] = Obj(KEYS[i])
        if k == 2:
            known.bad[i] = 1
        if pend[i] is None and sa.flag("pending"):
            pend[i] = Obj(KEYS[i])
            await q.update(pend[i])
    await must("resync returns", q.resync())
    for i in (0, 1):
        ds = q.get_by_key(KEYS[i])
        if pend[i] is not None:
            sa.check(len(ds) == 1 and ds[0].object is pend[i], "resync leaves keys with pending changes untouched", ds)
        elif given and known.obj[i] is not None:
            sa.check(ds and len(ds) == 1 and ds[0].type is DeltaType.SYNC and ds[0].object is known.obj[i],
                     "resync announces every known object without pending change", ds)
        else:
            sa.check(not ds, "resync announces nothing that is not known", ds)
    sa.check(same_keys(q.list_keys(), [KEYS[i] for i in (0, 1) if q.get_by_key(KEYS[i])]), "no key is pending without changes")
