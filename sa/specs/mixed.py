"""Long mixed histories over many keys, against exact models: every operation follows every other somewhere in them."""
import asyncio
import random
import sa
from aiok8s.cache import controller, fifo, shared_informer, store
from aiok8s.cache.delta_fifo import DeltaFIFO, DeletedFinalStateUnknown, Deltas, Delta, DeltaType
from aiok8s.controller import controller as kcontroller
from aiok8s.controller import reconcile
from aiok8s.leaderelection import leaderelection
from aiok8s.watch import mux
from aiok8s.workqueue import default_rate_limiters, delaying_queue, queue, rate_limiting_queue
from specs.common import *
from specs import ctrl, delta, informer
from specs.reflect import Env

STEPS = 220


class Course:
    """A fixed course of operations, one of several."""

    def __init__(self, n):
        self.x = 12345 + 7919 * sa.choose(n, "course")

    def __call__(self, n):
        self.x = (self.x * 1103515245 + 12345) % 2147483648
        return (self.x >> 12) % n

    def pick(self, l):
        return l[self(len(l))]


class Row(Falsy):
    def __init__(self, key, groups=()):
        self.key = key
        self.groups = groups


class Boom(Exception):
    pass


def key_of(o):
    return o.key


def same(a, b):
    return len(a) == len(b) and all([a[i] is b[i] for i in range(len(a))])


# ------------------------------------------------------------------ work queues
async def works(q):
    """add, get and done in any order over many items, several workers waiting now and then."""
    r = Course(3)
    FIRST = "items are handed out in the order they became ready"
    items = ["i%d" % i for i in range(9)]
    ready, busy, again = [], [], []
    gets = []

    async def look():
        await sa.settle()
        while gets and ready:
            g = [t for t in gets if t.done()]
            sa.check(len(g) > 0, "a waiting item goes to a waiting getter")
            x, down = g[0].result()
            gets.remove(g[0])
            sa.check(not down and x == ready[0], FIRST, x, ready)
            busy.append(ready.pop(0))
        for t in gets:
            sa.check(not t.done(), "get waits while nothing is ready")
        sa.check(len(q) == len(ready), "len counts the waiting items", len(q), ready)
    for step in range(STEPS):
        k = r(10)
        if k < 4:
            x = r.pick(items)
            await must("add returns", q.add(x))
            if x in busy:
                if x not in again:
                    again.append(x)
            elif x not in ready:
                ready.append(x)
        elif k < 6 and ready:
            x, down = await must("get returns an available item", q.get())
            sa.check(not down and x == ready[0], FIRST, x, ready)
            busy.append(ready.pop(0))
        elif k < 9 and busy:
            x = r.pick(busy)
            await must("done returns", q.done(x))
            busy.remove(x)
            if x in again:
                again.remove(x)
                ready.append(x)
        elif not ready and len(gets) < 3:
            gets.append(asyncio.ensure_future(q.get()))
        elif gets and r(2):
            t = gets.pop(0)
            t.cancel()
        await look()
    down = asyncio.ensure_future(q.shut_down())
    await sa.settle()
    for t in gets:
        sa.check(t.done() and t.result()[1], "every blocked get returns at shutdown")
    await must("add returns", q.add("late"))
    while ready:
        x, d = await must("get returns an available item", q.get())
        sa.check(not d and x == ready.pop(0), FIRST, x)
        busy.append(x)
    x, d = await must("get returns after the shutdown", q.get())
    sa.check(d, "get tells of the shutdown once nothing is left")
    await must("shut_down returns", down)


async def queue_plain():
    await works(queue.new())


async def queue_delaying():
    await works(delaying_queue._DelayingType(VClock()))


async def delays():
    """Delayed additions, immediate ones and the passing of time, mixed."""
    r = Course(3)
    q = delaying_queue._DelayingType(VClock())
    items = ["i%d" % i for i in range(7)]
    due = {}
    now = 0
    ready = []
    for step in range(150):
        k = r(8)
        x = r.pick(items)
        if k < 4:
            d = 1 + r(9)
            await must("add_after returns", q.add_after(x, d))
            due[x] = min(due.get(x, now + d), now + d)
        elif k == 4:
            await must("add returns", q.add(x))
            if x not in ready:
                ready.append(x)
        elif k == 5:
            await must("add_after returns", q.add_after(x, -r(2)))
            if x not in ready:
                ready.append(x)
        else:
            d = 1 + r(3)
            sa.advance(d)
            now += d
        await sa.settle()
        for y in [y for y in due if due[y] <= now]:
            del due[y]
            if y not in ready:
                ready.append(y)
        sa.check(len(q) == len(ready), "an item becomes available as soon as the clock passes its delay, and not before", len(q), ready, step)
        if k > 5 and r(2):
            got = []
            while len(q):
                y, down = await must("get returns an available item", q.get())
                await must("done returns", q.done(y))
                got.append(y)
            sa.check(sorted(got) == sorted(ready), "an item becomes available once per addition", got, ready)
            ready = []
    sa.check(len(sa.crashes()) == 0, "no operation of the queue fails", sa.crashes())


async def limiters():
    """Two exponential limiters of different shape, many items."""
    r = Course(3)
    lims = [default_rate_limiters.ItemExponentialFailureRateLimiter(2, 100), default_rate_limiters.ItemExponentialFailureRateLimiter(0.5, 3)]
    items = ["i%d" % i for i in range(9)]
    n = [{x: 0 for x in items}, {x: 0 for x in items}]
    for step in range(STEPS):
        x = r.pick(items)
        i = r(2)
        if r(6):
            sa.check(lims[i].when(x) == min((2, 0.5)[i] * 2 ** n[i][x], (100, 3)[i]), "the n-th delay is min(base * 2**n, max)", x, n[i][x])
            n[i][x] += 1
        else:
            lims[i].forget(x)
            n[i][x] = 0
        for y in items:
            sa.check([l.num_requeues(y) for l in lims] == [c[y] for c in n], "num_requeues counts the calls since the last forget", y)


# ------------------------------------------------------------------ FIFO
async def fifos():
    r = Course(3)
    q = fifo.FIFO(key_of)
    keys = ["k%d" % i for i in range(8)]
    now, order = {}, []
    left, known = [], False       # of the first list; whether populated

    def put(o):
        if o.key not in now:
            order.append(o.key)
        now[o.key] = o
    for step in range(STEPS):
        k = r(12)
        o = Row(r.pick(keys))
        if step == 0:
            first = [Row(x) for x in keys[:5]]
            await must("replace returns", q.replace(first + [first[2]], "1"))
            for x in first:
                put(x)
            left = keys[:5]
        elif k < 3:
            await must("add returns", q.add(o))
            put(o)
        elif k == 3:
            await must("update returns", q.update(o))
            put(o)
        elif k == 4:
            await must("add_if_not_present returns", q.add_if_not_present(o))
            if o.key not in now:
                put(o)
        elif k < 7:
            e = (await outcome(q.delete(o)))[1]
            if o.key in now:
                sa.check(e is None, "a pending object can be deleted")
                del now[o.key]
                order.remove(o.key)
                if o.key in left:
                    left.remove(o.key)
        elif k == 7 and step % 3 == 0 and not left:
            l = [Row(x) for x in keys if r(2)]
            await must("replace returns", q.replace(l, "2"))
            now, order = {}, []
            for x in l:
                put(x)
        elif order:
            mode = r(4)
            cause = Boom() if mode == 2 else None

            def take(x):
                if mode == 1:
                    raise fifo.RequeueError
                if mode == 2:
                    raise fifo.RequeueError from cause
                if mode == 3 and step % 2:
                    raise Boom
            got, e = await must("pop returns when an object is pending", outcome(q.pop(take)))
            x = order.pop(0)
            was = now.pop(x)
            if x in left:
                left.remove(x)
            if mode in (1, 2):
                put(was)
            if e is None:
                sa.check(got is was, "pop hands out the latest object of the key, in the order the keys became pending", x)
        sa.check(sorted(q.list_keys()) == sorted(order) and len(q.list()) == len(order), "the queue lists exactly the pending objects")
        for x in keys:
            sa.check(q.get_by_key(x) is now.get(x), "the queue lists exactly the pending objects", x)
        sa.check(q.has_synced() == (not left), "has_synced is true once the first list was popped or deleted, and not before", left)


# ------------------------------------------------------------------ DeltaFIFO
class Known:
    def __init__(self):
        self.objs = {}

    def list_keys(self):
        return list(self.objs)

    def get_by_key(self, key):
        return self.objs.get(key)


async def deltas_known():
    await deltas(Known())


async def deltas_plain():
    await deltas(None)


async def deltas(known):
    """As the informer uses it: what is popped becomes known, or is forgotten when it was deleted."""
    r = Course(3)
    q = DeltaFIFO(key_of, known) if known is not None else DeltaFIFO(key_of)
    keys = ["k%d" % i for i in range(7)]
    want = {}                     # key -> expected entries, keys in the order they became pending
    late = []                     # keys that became pending together, in any order
    synced = False
    left = []

    def put(k, e):
        want.setdefault(k, [])
        delta.append(want[k], e)
    for step in range(STEPS):
        k = r(12)
        o = Row(r.pick(keys))
        if step == 0 or k == 0 and step % 2:
            l = [Row(x) for x in keys if r(3)]
            await must("replace returns", q.replace(list(l), "1"))
            before = {x: delta.last_objects(want[x]) for x in want}
            for x in l:
                put(x.key, delta.plain(DeltaType.SYNC, x))
            listed = [x.key for x in l]
            new = [x for x in (known.objs if known is not None else ()) if x not in listed and x not in want]
            for x in list(before) + new:
                if x not in listed:
                    put(x, delta.tomb(x, before.get(x, []) + ([known.objs[x]] if known is not None and x in known.objs else [])))
            if step == 0:
                left = list(want)
        elif k < 3:
            await must("add returns", q.add(o))
            put(o.key, delta.plain(DeltaType.ADDED, o))
        elif k < 5:
            await must("update returns", q.update(o))
            put(o.key, delta.plain(DeltaType.UPDATED, o))
        elif k < 7:
            x = o
            if r(3) == 0:
                x = DeletedFinalStateUnknown(o.key, o)
            await must("delete returns", q.delete(x))
            if o.key in want or known is not None and o.key in known.objs:
                put(o.key, delta.given_delete(o.key, x))
        elif k == 7:
            await must("resync returns", q.resync())
            if known is not None:
                for x in known.objs:
                    if x not in want:
                        put(x, delta.plain(DeltaType.SYNC, known.objs[x]))
        elif k == 8:
            await must("add_if_not_present returns", q.add_if_not_present(Deltas([Delta(DeltaType.ADDED, o)])))
            if o.key not in want:
                put(o.key, delta.plain(DeltaType.ADDED, o))
        elif want:
            mode = r(6)
            seen = []

            async def process(ds):
                seen.append(ds)
                if mode == 1:
                    raise fifo.RequeueError
                if mode == 2:
                    raise fifo.RequeueError from Boom()
                if mode == 3:
                    raise Boom
            res, e = await must("pop returns when a change is pending", outcome(q.pop(process)))
            ds = seen[0]
            d = ds[0].object
            sa.check(d.key in want, "no key is handed out without changes", d.key)
            es = want[d.key]
            sa.check(delta.match_all(ds, es), delta.EXACT, d.key)
            first = list(want)[0]
            sa.check(d.key == first or len(es) == 1 and len(want[first]) == 1, "keys are handed out in the order they became pending", d.key, first)
            del want[d.key]
            if d.key in left:
                left.remove(d.key)
            if mode in (1, 2):
                want[d.key] = es
                sa.check((e is not None) == (mode == 2), "a processing error reaches the caller of pop with the changes and the cause")
            elif known is not None:
                if ds[-1].type is DeltaType.DELETED:
                    known.objs.pop(d.key, None)
                else:
                    known.objs[d.key] = ds[-1].object
        sa.check(sorted(q.list_keys()) == sorted(want), "the queue lists exactly the keys with pending changes")
        for x in keys:
            ds = q.get_by_key(x)
            if x in want:
                sa.check(delta.match_all(ds, want[x]), "get shows the pending changes of the key", x)
                want[x] = [delta.settled(ds[j], want[x][j]) for j in range(len(ds))]
            else:
                sa.check(not ds, "get shows the pending changes of the key", x)
        sa.check(q.has_synced() == (not left), "has_synced is true once the first list was processed, and not before", left)


# ------------------------------------------------------------------ stores
def by_group(o):
    return list(o.groups)


async def stores():
    r = Course(3)
    FIND = "by_index and index return exactly the matching stored objects, each once"
    SHOW = "get, get_by_key, list and list_keys show exactly the last object stored per key"
    s = store.new_indexer(key_of, {"g": by_group, "first": lambda o: [o.groups[0]] if o.groups else []})
    keys = ["k%d" % i for i in range(9)]
    names = ("a", "b", "c", "d")
    now = {}

    def row(k):
        return Row(k, tuple([g for g in names if r(3) == 0]))
    for step in range(STEPS):
        k = r(12)
        o = row(r.pick(keys))
        if k < 4:
            await s.add(o)
            now[o.key] = o
        elif k < 7:
            await s.update(o)
            now[o.key] = o
        elif k < 11:
            await s.delete(o)
            now.pop(o.key, None)
        elif step % 2:
            l = [row(x) for x in keys if r(3)]
            await s.replace(l, "1")
            now = {x.key: x for x in l}
        else:
            await s.resync()
        sa.check(sorted(s.list_keys()) == sorted(now) and len(s.list()) == len(now), SHOW)
        for x in keys:
            sa.check(s.get_by_key(x) is now.get(x), SHOW, x)
        for g in names:
            want = sorted([x for x in now if g in now[x].groups])
            sa.check(sorted([x.key for x in await s.by_index("g", g)]) == want, FIND, g)
            sa.check(sorted(await s.index_keys("g", g)) == want, "index_keys returns exactly the keys of the matching stored objects", g)
            first = sorted([x for x in now if now[x].groups and now[x].groups[0] == g])
            sa.check(sorted([x.key for x in await s.by_index("first", g)]) == first, FIND, g)
        probe = row("probe")
        sa.check(sorted([x.key for x in await s.index("g", probe)]) == sorted([x for x in now if set(now[x].groups) & set(probe.groups)]), FIND, probe.groups)
        used = set([g for x in now.values() for g in x.groups])
        sa.check(set(await s.list_index_func_values("g")) == used, "list_index_func_values returns exactly the values in use")


# ------------------------------------------------------------------ watch
async def buses(drop):
    """Watchers come, go and read while events are published; each sees what was published while it was there."""
    r = Course(3)
    ORDER = "a watcher receives exactly the events published after its registration, in order"
    b = mux.Broadcaster(3, mux.FullChannelBehavior.DROP_IF_CHANNEL_FULL if drop else mux.FullChannelBehavior.WAIT_IF_CHANNEL_FULL)
    ws = []                        # [watcher, events expected, capacity]
    for step in range(STEPS):
        k = r(10)
        if k == 0 and len(ws) < 5:
            n = r(5)
            if n:
                pre = [("PRE", Falsy()) for _ in range(n)]
                w = await must("registration goes on when no watcher holds it back",
                               b.watch_with_prefix([{"type": t, "object": x} for t, x in pre]))
                ws.append([w, pre, max(3, n + 1)])
            else:
                w = await must("registration goes on when no watcher holds it back", b.watch())
                ws.append([w, [], 3])
        elif k == 1 and ws:
            w = ws.pop(r(len(ws)))
            await must("stopping a watcher returns when no other watcher holds it back", w[0].stop())
            r1, e = await must("the iteration of a stopped watcher ends", outcome(rest(w[0])))
            sa.check(e is None, "the iteration of a stopped watcher ends", e)
        elif k < 6 and (drop or all([len(w[1]) < w[2] for w in ws])):
            e = ("T%d" % r(3), Falsy())
            await must("publishing never waits for a watcher in dropping mode" if drop
                       else "publishing goes on when no watcher holds it back", b.action(e[0], e[1]))
            for w in ws:
                if len(w[1]) < w[2]:
                    w[1].append(e)
        elif ws:
            w = r.pick(ws)
            if w[1]:
                e = await must("an event reaches every watcher that asks for it", w[0].__anext__())
                x = w[1].pop(0)
                sa.check(e["type"] == x[0] and e["object"] is x[1], ORDER, step)
        await sa.settle()
    for w in ws:
        while w[1]:
            e = await must("an event reaches every watcher that asks for it", w[0].__anext__())
            x = w[1].pop(0)
            sa.check(e["type"] == x[0] and e["object"] is x[1], ORDER)
    await must("shutdown returns once everything was delivered", b.shutdown())
    for w in ws:
        sa.check(await must("shutdown ends the iteration of every watcher", rest(w[0])) == 0, ORDER)


async def rest(w):
    n = 0
    async for e in w:
        n += 1
    return n


async def bus_wait():
    await buses(False)


async def bus_drop():
    await buses(True)


# ------------------------------------------------------------------ informers
class Server:
    """The API server's side: what it stores, and what each handler has to be told of it."""

    def __init__(self, r):
        self.r = r
        self.env = Env()
        self.now = {}
        self.rv = 0
        self.version = None

    def fresh(self, name):
        self.rv += 1
        t = informer.Thing(name, str(self.rv))
        m = t.metadata
        m.uid = "u%d" % self.r(3)
        m.generation = self.r(4)
        m.labels = ({}, None, {"l": "v"})[self.r(3)]
        m.deletion_timestamp = ("then", None)[self.r(2)]
        return t

    def listing(self):
        """The present state anew, some of it changed meanwhile; the changes by name."""
        diff = {}
        new = {}
        for i in range(6):
            x = "o%d" % i
            old = self.now.get(x)
            k = self.r(5)
            if k == 0 or old is None and k < 3:
                if old is not None:
                    diff[x] = ("delete", old)
                continue
            if old is None:
                new[x] = self.fresh(x)
                diff[x] = ("add", new[x])
            elif k == 1:
                new[x] = self.fresh(x)
                diff[x] = ("update", old, new[x])
            else:
                new[x] = informer.Thing(x, old.metadata.resource_version)
                new[x].metadata.__dict__.update(old.metadata.__dict__)
                diff[x] = ("sync", old, new[x])
        self.now = new
        l = informer.Listing(list(new.values()))
        self.version = l.metadata.resource_version = "L%d" % self.rv
        self.env.list_gate.give(l)
        return diff

    def event(self):
        x = "o%d" % self.r(6)
        old = self.now.get(x)
        new = self.fresh(x)
        self.version = new.metadata.resource_version
        if old is not None and self.r(3) == 0:
            del self.now[x]
            return {"type": "DELETED", "object": new}, ("delete", new)
        self.now[x] = new
        if old is None:
            return {"type": "ADDED", "object": new}, ("add", new)
        return {"type": "MODIFIED", "object": new}, ("update", old, new)


def agrees(log, diff):
    """One notification per change; objects listed unchanged may be told of, once."""
    seen = []
    for l in log:
        x = l[-1].metadata.name
        w = diff.get(x)
        if w is None or x in seen:
            return False
        seen.append(x)
        if w[0] == "sync":
            if l[0] != "update" or l[1] is not w[1] or l[2] is not w[2]:
                return False
        elif l[0] != w[0] or not same(l[1:], w[1:]):
            return False
    return all([x in seen for x in diff if diff[x][0] != "sync"])


async def informers(shared):
    r = Course(3)
    s = Server(r)
    env = s.env
    RIGHT = "additions give on_add, changes on_update with the old and the new object, deletions on_delete"
    told = [informer.Told()]
    if shared:
        inf = shared_informer.new_shared_index_informer(env, informer.Thing, 0, {"odd": lambda o: ["odd"] if int(o.metadata.name[1:]) % 2 else []})
        inf._clock = inf._processor._clock = informer.Frozen()
        await inf.add_event_handler(told[0].funcs())
        view = inf.get_indexer()
    else:
        view, inf = controller.new_informer(env, informer.Thing, 0, told[0].funcs())
    t = asyncio.ensure_future(inf.run())
    for step in range(90):
        await sa.settle()
        for _ in range(3):
            if env.list_gate.open() or env.event.open() or env.watch_gate.open():
                break
            sa.fire()
            await sa.settle()
        sa.check(not t.done(), "the informer goes on")
        many = {}
        if env.list_gate.open():
            many = s.listing()
        elif env.watch_gate.open():
            sa.check(env.asked == s.version, "a watch starts from the last version seen", env.asked, s.version)
            env.watch_gate.give(None)
        else:
            sa.check(env.event.open(), "the list is followed by a watch")
            k = r(12)
            if k == 0:
                env.event.give("boom")
            elif k == 1:
                e, w = s.event()
                many[w[-1].metadata.name] = w
                env.stream.backlog.append(None)     # the server ends the watch
                env.event.give(e)
            elif k == 2:
                s.rv += 1
                s.version = str(s.rv)
                env.event.give({"type": "BOOKMARK", "object": informer.Thing("mark", s.version)})
            elif k == 3 and shared and len(told) < 5:
                told.append(informer.Told())
                await must("add_event_handler returns", inf.add_event_handler(told[-1].funcs()))
                await sa.settle()
                sa.check(sorted([l[1].metadata.name for l in told[-1].log]) == sorted(s.now)
                         and all([l[0] == "add" and l[1] is s.now[l[1].metadata.name] for l in told[-1].log]),
                         "a handler added later is told of every object stored", len(told[-1].log))
                told[-1].log = []
            else:
                e, w = s.event()
                many[w[-1].metadata.name] = w
                env.event.give(e)
        await sa.settle()
        for h in told:
            sa.check(agrees(h.log, many), RIGHT, [l[0] for l in h.log], step)
            h.log = []
        sa.check(sorted(view.list_keys()) == sorted(["ns/" + x for x in s.now])
                 and all([view.get_by_key("ns/" + x) is s.now[x] for x in s.now]), "the store holds the objects of the server", step)
        if shared:
            got = await view.by_index("odd", "odd")
            sa.check(sorted([o.metadata.name for o in got]) == sorted([x for x in s.now if int(x[1:]) % 2]), "the store holds the objects of the server", "index")


async def informer_plain():
    await informers(False)


async def informer_shared():
    await informers(True)


# ------------------------------------------------------------------ controller on its real queue
class Shop:
    """The queue, its limiter and the workers, as they should be."""

    def __init__(self, workers):
        self.free = workers
        self.asleep = []           # when sleeping workers wake up
        self.ready = []
        self.busy = []
        self.again = []
        self.later = {}            # item: when it becomes available
        self.fails = {}

    def add(self, x):
        if x in self.busy:
            if x not in self.again:
                self.again.append(x)
        elif x not in self.ready:
            self.ready.append(x)

    def after(self, x, at):
        if x not in self.later or at < self.later[x]:
            self.later[x] = at

    def take(self):
        got = []
        while self.free and self.ready:
            x = self.ready.pop(0)
            self.busy.append(x)
            self.free -= 1
            got.append(x)
        return got

    def done(self, x):
        self.busy.remove(x)
        if x in self.again:
            self.again.remove(x)
            self.ready.append(x)

    def next(self):
        ts = self.asleep + list(self.later.values())
        return min(ts) if ts else None


async def controllers():
    """Requests added, reconciled with every result and retried, over the real queue and its limiter."""
    r = Course(4)
    c = VClock()
    lim = default_rate_limiters.ItemExponentialFailureRateLimiter(3, 50)
    q = rate_limiting_queue._RateLimitingType(lim, c)
    kc = ctrl.Cache()
    do = ctrl.Reconciler()
    k = kcontroller.new(ctrl.Manager(kc), reconciler=do)
    k.make_queue = lambda: q
    workers = 1 + r(3)
    k.max_concurrent_reconciles = workers
    t = asyncio.ensure_future(k.start())
    await sa.settle()
    kc.sync.give(True)
    await sa.settle()
    m = Shop(workers)
    now = 0                                # in 256ths of a second
    items = [ctrl.request("n%d" % i) for i in range(5)]
    at = {}                                # the gates of the reconciles at work
    TURN = "what is added is reconciled, in its turn, by one worker at a time"

    def begin(new):
        gs = [g for g in do.gates if g not in at.values()]
        sa.check(len(gs) == len(new), ctrl.ALIVE)
        for i in range(len(new)):
            at[new[i]] = gs[i]
        do.asked = []
    for step in range(150):
        await sa.settle()
        new = m.take()
        sa.check(do.asked == new, TURN, do.asked, new)
        begin(new)
        sa.check(len(q) == len(m.ready), "len counts the waiting items", len(q), m.ready)
        for x in items:
            sa.check(q.num_requeues(x) == m.fails.get(x, 0), ctrl.NEXT, "failures", x, q.num_requeues(x))
        sa.check(not t.done(), ctrl.ALIVE)
        op = r(10)
        if op < 3:
            x = r.pick(items)
            await must("add returns", q.add(x))
            m.add(x)
        elif op < 7 and m.busy:
            x = r.pick(m.busy)
            g = at.pop(x)
            what = r(5)
            d = (2, 7, 11)[r(3)]
            if what < 2:
                if what == 0:
                    g.fail()
                else:
                    g.give(reconcile.Result(requeue=True))
                m.after(x, now + 256 * min(3 * 2 ** m.fails.get(x, 0), 50))
                m.fails[x] = m.fails.get(x, 0) + 1
            elif what == 2:
                g.give(reconcile.Result(requeue=bool(r(2)), requeue_after=d))
                m.fails.pop(x, None)
                m.after(x, now + 256 * d)
            else:
                g.give(reconcile.Result())
                m.fails.pop(x, None)
            m.done(x)
            if what == 0:
                m.asleep.append(now + 256)   # the worker pauses after a failure
            else:
                m.free += 1
        await sa.settle()
        new = m.take()
        sa.check(do.asked == new, TURN, do.asked, new)
        begin(new)
        till = now + (1 if op < 7 else 256 * r(9))     # no two things fall due at once
        while now < till:
            nxt = m.next()
            nxt = till if nxt is None or nxt > till else nxt
            sa.advance((nxt - now) / 256)
            now = nxt
            await sa.settle()
            m.free += len([w for w in m.asleep if w <= now])
            m.asleep = [w for w in m.asleep if w > now]
            for x in [x for x in m.later if m.later[x] <= now]:
                del m.later[x]
                m.add(x)
            new = m.take()
            sa.check(do.asked == new, TURN, do.asked, new)
            begin(new)
    t.cancel()
    await sa.settle()
    sa.check(t.done() and q.shutting_down() and not do.gates, "when start has ended nothing runs")


# ------------------------------------------------------------------ several candidates over one lock
LEASE, DEADLINE, RETRY = 15.5, 10, 2


class Board:
    """The record all candidates share."""

    def __init__(self):
        self.rec = None
        self.version = 0


class Candidate:
    """One process: an elector, its lock, and what it has to do next."""

    def __init__(self, board, name, release):
        self.board, self.name, self.release = board, name, release
        self.bad = 0               # how many more operations fail
        self.boot()

    def boot(self):
        self.read = -1             # the version last read
        self.since = None          # when that version was first read
        self.held = None           # the holder last read or written
        self.on = 0
        self.begun = 0
        self.stops = 0
        self.reports = []
        self.good = None           # when it last wrote the record
        self.e = leaderelection.LeaderElector(leaderelection.LeaderElectionConfig(
            lock=self, callbacks=leaderelection.LeaderCallbacks(self.lead, self.stopped, self.report), name="n",
            lease_duration=LEASE, renew_deadline=DEADLINE, retry_period=RETRY, release_on_cancel=self.release))
        self.t = asyncio.ensure_future(self.e.run())

    def identity(self):
        return self.name

    def describe(self):
        return "the lock"

    def fault(self):
        if self.bad:
            self.bad -= 1
            raise Boom

    async def get(self):
        self.fault()
        b = self.board
        if b.version != self.read:
            self.read = b.version
            self.since = sa.now()
        if b.rec is None:
            return None, None
        self.held = b.rec.get("holderIdentity")
        return dict(b.rec), "v%d" % b.version

    async def create(self, rec):
        self.fault()
        sa.check(self.board.rec is None, "a missing record is created")
        self.write(rec)

    async def update(self, rec):
        self.fault()
        if self.board.version != self.read:
            raise Boom                     # changed since it was read
        self.write(rec)

    def write(self, rec):
        b = self.board
        old = b.rec
        holder = old.get("holderIdentity") if old else None
        if rec.get("holderIdentity"):
            sa.check(rec["holderIdentity"] == self.name and rec["leaseDurationSeconds"] == 15 and sa.entail(rec["renewTime"], "==", sa.now()),
                     "a record written names the candidate, its lease duration and the current renew time", rec)
            if old is None:
                sa.check(rec["leaderTransitions"] == 0, "a new record counts from zero", rec)
            elif holder == self.name:
                sa.check(rec["leaderTransitions"] == old["leaderTransitions"] and sa.entail(rec["acquireTime"], "==", old["acquireTime"]),
                         "renewing keeps the acquire time and the transitions", rec, old)
            else:
                sa.check(rec["leaderTransitions"] == old["leaderTransitions"] + 1, "taking over counts one transition", rec, old)
            if holder != self.name:
                sa.check(sa.entail(rec["acquireTime"], "==", sa.now()), "taking the lease sets its acquire time", rec)
            if holder and holder != self.name:
                sa.check(sa.entail(sa.now() - self.since, ">=", LEASE),
                         "a lease is taken only if it is free, expired or the candidate's own", sa.now() - self.since)
            self.good = sa.now()
        else:
            sa.check(self.release and holder == self.name and rec["leaderTransitions"] == old["leaderTransitions"],
                     "a lease is given back by its holder, if asked for, and keeps its transitions", rec, old)
        b.rec = dict(rec)
        b.version += 1
        self.read = b.version
        self.since = sa.now()
        self.held = rec.get("holderIdentity")

    async def lead(self):
        self.begun += 1
        self.on += 1
        sa.check(self.held == self.name, "on_started_leading is started only after the lease was acquired")
        try:
            await asyncio.get_event_loop().create_future()
        finally:
            self.on -= 1

    async def stopped(self):
        self.stops += 1

    async def report(self, who):
        sa.check(not self.reports or self.reports[-1] != who, "on_new_leader is called only when the observed holder changes", who)
        self.reports.append(who)


async def elections():
    """Candidates come, lead, fail and go; their locks fail now and then."""
    random.random = lambda: 0.5
    r = Course(3)
    board = Board()
    cs = [Candidate(board, "c%d" % i, bool(r(2))) for i in range(3)]
    led = 0

    async def look():
        await sa.settle()
        for c in cs:
            sa.check(c.e.is_leader() == (c.held == c.name),
                     "is_leader is true exactly while the record last seen or written names the candidate", c.name, c.held)
            sa.check(c.begun <= 1, "on_started_leading is started once")
            if c.held is not None and not c.bad and not c.t.done():
                sa.check(bool(c.reports), "on_new_leader is called when the observed holder changes")
            if c.t.done():
                sa.check(c.stops == 1 and c.on == 0, "whenever run ends the leading task is cancelled and on_stopped_leading is called once")
                sa.check(not c.t.cancelled() and c.t.exception() is None and c.begun == 1, "run ends by itself only after leading")
                sa.check(sa.entail(sa.now() - c.good, ">=", DEADLINE), "a leader that renews in time keeps leading", sa.now() - c.good)
                c.boot()
            else:
                sa.check(c.stops == 0, "on_stopped_leading is called when run ends")
            if c.on:
                sa.check(sa.entail(sa.now() - c.good, "<=", DEADLINE + RETRY), "a leader that cannot renew steps down", sa.now() - c.good)
        await sa.settle()
        sa.check(len([c for c in cs if c.on]) <= 1, "no two candidates lead at once", [c.name for c in cs if c.on])
    for step in range(140):
        await look()
        k = r(16)
        if k == 0:
            r.pick(cs).bad = 1 + r(8)
        elif k == 1:
            who = [c for c in cs if c.on]
            if who:
                who[0].bad = 12
        elif k == 2:
            c = r.pick(cs)
            was = c.held == c.name and c.on
            c.t.cancel()
            await sa.settle()
            sa.check(c.t.done() and c.t.cancelled() and c.stops == 1 and c.on == 0, "cancelling run reaches the caller")
            if was and c.release and not c.bad:
                sa.check(c.held is None and not c.e.is_leader(), "a lease still held is given back when run ends, if asked for")
            if was and not c.release:
                sa.check(board.rec.get("holderIdentity") == c.name, "a lease is given back by its holder, if asked for, and keeps its transitions")
            c.boot()
        else:
            sa.fire()
    for c in cs:
        c.bad = 0
    for _ in range(60):
        await look()
        sa.fire()
    await look()
    sa.check(len([c for c in cs if c.on]) == 1, "with every lock at work one candidate leads", [c.held for c in cs])
