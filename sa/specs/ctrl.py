"""Drivers for the controller package."""
import asyncio
import sa
from aiok8s.cache import delta_fifo
from aiok8s.controller import builder, cache, controller, event, handler, manager, reconcile, source
from specs.common import *
from specs.reflect import Gate, Boom


def request(name="n", namespace="ns"):
    return reconcile.Request(reconcile.NamespacedName(namespace=namespace, name=name))


class Odd(Falsy):
    """Something in the queue that is not a request."""


class Queue:
    """A work queue under the driver's control; every operation takes a moment."""

    def __init__(self):
        self.ready = []
        self.waiting = []
        self.log = []
        self.fails = False
        self.counted = 0           # what the limiter counts for every item
        self.taken = []
        self.down = False

    async def slow(self, what, item, *more):
        await asyncio.sleep(0)
        if self.fails:
            self.fails = False
            raise Boom
        self.log.append((what, item) + more)

    def fast(self, what, item):
        if self.fails:
            self.fails = False
            raise Boom
        self.log.append((what, item))

    async def add(self, item):
        await self.slow("add", item)

    async def add_after(self, item, duration):
        await self.slow("after", item, duration)

    async def add_rate_limited(self, item):
        await self.slow("limited", item)

    def forget(self, item):
        self.fast("forget", item)

    def num_requeues(self, item):
        return self.counted

    def __len__(self):
        return 1

    async def get(self):
        f = asyncio.get_event_loop().create_future()
        self.waiting.append(f)
        try:
            item = await f
        finally:
            if f in self.waiting:
                self.waiting.remove(f)
        if item is not None:
            self.taken.append(item)
        return item, item is None

    async def done(self, item):
        self.log.append(("done", item))
        self.taken.remove(item)

    async def shut_down(self):
        await asyncio.sleep(0)
        self.down = True
        for f in self.waiting:
            if not f.done():
                f.set_result(None)

    def shutting_down(self):
        return self.down

    def give(self, item):
        self.waiting.pop(0).set_result(item)


class Reconciler:
    def __init__(self):
        self.gates = []
        self.asked = []

    async def reconcile(self, req):
        self.asked.append(req)
        g = Gate()
        self.gates.append(g)
        try:
            return await g.wait()
        finally:
            self.gates.remove(g)


class Cache:
    def __init__(self):
        self.sync = Gate()
        self.informers = []

    async def wait_for_cache_sync(self):
        return await self.sync.wait()

    async def get_informer(self, type_):
        i = Informer(type_)
        self.informers.append(i)
        return i


class Informer:
    def __init__(self, type_):
        self.type = type_
        self.handlers = []

    async def add_event_handler(self, h, *, resync_period=None):
        await asyncio.sleep(0)
        self.handlers.append(h)


class Manager:
    def __init__(self, cache):
        self.cache = cache
        self.runnables = []

    def get_cache(self):
        return self.cache

    def set_fields(self, i):
        if hasattr(i, "inject_cache"):
            i.inject_cache(self.cache)
        if hasattr(i, "inject_func"):
            i.inject_func(self.set_fields)

    def add(self, r):
        self.set_fields(r)
        self.runnables.append(r)


async def until(cond):
    """Lets everything that is due happen, short pauses included, until the condition holds."""
    await sa.settle()
    for _ in range(4):
        if cond():
            return True
        if not sa.fire():
            return cond()
        await sa.settle()
    return cond()


class World:
    def __init__(self, workers):
        self.q = Queue()
        self.cache = Cache()
        self.mgr = Manager(self.cache)
        self.do = Reconciler()
        self.c = controller.new(self.mgr, reconciler=self.do)
        self.c.make_queue = lambda: self.q
        self.c.max_concurrent_reconciles = workers

    async def started(self):
        self.t = asyncio.ensure_future(self.c.start())
        await sa.settle()
        self.cache.sync.give(True)
        await sa.settle()


NEXT = "the result of a reconcile decides the item's next step"
DONE = "an item taken is marked done exactly once, after its outcome was handled"
ALIVE = "a worker keeps taking items whatever happened"


def outcome_of(k, req, d):
    """Operations expected on the queue for the outcome of a reconcile."""
    if k == 0:
        return [("limited", req)]
    if k == 1 or k == 2:
        return [("forget", req), ("after", req, d)]
    if k == 3:
        return [("limited", req)]
    return [("forget", req)]


def give_outcome(g, k, d):
    if k == 0:
        g.fail()
    elif k == 1:
        g.give(reconcile.Result(requeue_after=d))
    elif k == 2:
        g.give(reconcile.Result(requeue=True, requeue_after=d))
    elif k == 3:
        g.give(reconcile.Result(requeue=True))
    else:
        g.give(reconcile.Result())


def same_op(a, b):
    if len(a) != len(b) or a[0] != b[0] or a[1] is not b[1]:
        return False
    return len(a) < 3 or sa.entail(a[2], "==", b[2])


def same_log(log, want):
    """The same operations; marking done comes last, the others in any order."""
    if len(log) != len(want):
        return False
    if want and want[-1][0] == "done" and log[-1][0] != "done":
        return False
    for b in want:
        if not any([same_op(a, b) for a in log]):
            return False
    return True


async def one_by_one(fails, cancel, down=False, counted=0):
    """One worker, items for ever, every outcome."""
    w = World(1)
    q = w.q
    await w.started()
    q.counted = counted
    q.down = down                  # the queue was shut down, but not all of it was taken yet
    d = sa.num("delay", 0, lo_open=True)
    while True:
        await sa.point()
        sa.check(not w.t.done(), ALIVE)
        if not q.waiting:
            sa.check(await until(lambda: len(q.waiting) > 0), ALIVE)
            continue
        sa.check(len(q.waiting) == 1, "one item at a time per worker")
        odd = sa.flag("not a request")
        item = Odd() if odd else request()
        q.log = []
        w.do.asked = []
        q.give(item)
        await sa.settle()
        if odd:
            sa.check(same_log(q.log, [("forget", item), ("done", item)]), "an item that is not a request is dropped and forgotten", q.log)
            sa.check(not w.do.asked, "an item that is not a request is never reconciled")
            continue
        sa.check(len(w.do.asked) == 1 and w.do.asked[0] is item, "a request is reconciled once", w.do.asked)
        sa.check(not q.log, DONE, q.log)
        if cancel and sa.flag("cancel"):
            w.t.cancel()
            await sa.settle()
            sa.check(w.t.done() and w.t.cancelled(), "cancelling the controller reaches the caller")
            sa.check(same_log(q.log, [("done", item)]), DONE, q.log)
            return
        k = sa.choose(5, "outcome")
        q.fails = fails and sa.flag("the queue operation fails")
        failing = q.fails
        give_outcome(w.do.gates[0], k, d)
        want = outcome_of(k, item, d)
        if cancel and sa.flag("cancel while the outcome is handled"):
            for _ in range(sa.choose(4, "turns before the cancellation")):
                await asyncio.sleep(0)
            w.t.cancel()
            await sa.settle()
            sa.check(w.t.done(), "cancelling the controller reaches the caller")
            n = [x for x in q.log if x[0] == "done"]
            sa.check(len(n) == 1 and n[0][1] is item and q.log[-1][0] == "done", DONE, q.log)
            return
        await sa.settle()
        if failing:
            n = [x for x in q.log if x[0] == "done"]
            sa.check(len(n) == 1 and n[0][1] is item and q.log[-1][0] == "done", DONE, q.log)
            q.fails = False
        else:
            sa.check(same_log(q.log[:-1], want), NEXT, k, q.log)
            sa.check(len(q.log) > 0 and q.log[-1][0] == "done" and q.log[-1][1] is item, DONE, q.log)


async def c01():
    await one_by_one(False, False)


async def c01_often():
    """However often a request has failed before."""
    await one_by_one(False, False, counted=10 ** 7)


async def c02():
    await one_by_one(True, False)


async def c02_cancel():
    await one_by_one(False, True)


async def c02_drain():
    await one_by_one(False, True, True)


async def c02_two():
    """Two workers, items handled side by side."""
    w = World(2)
    q = w.q
    await w.started()
    d = sa.num("delay", 0, lo_open=True)
    open_ = []
    while True:
        await sa.point()
        sa.check(not w.t.done(), ALIVE)
        if sa.flag("next item"):
            sa.assume(len(open_) < 2)
            if not q.waiting:
                sa.check(await until(lambda: len(q.waiting) > 0), ALIVE)
                continue
            r = request("n%d" % len(open_))
            q.log = []
            w.do.asked = []
            q.give(r)
            await sa.settle()
            sa.check(len(w.do.asked) == 1 and w.do.asked[0] is r, "a request is reconciled once", w.do.asked)
            sa.check(not q.log, DONE, q.log)
            open_.append(r)
        else:
            sa.assume(len(open_) > 0)
            i = sa.choose(len(open_), "which")
            k = sa.choose(5, "outcome")
            q.log = []
            r = open_.pop(i)
            give_outcome(w.do.gates[i], k, d)
            await sa.settle()
            sa.check(same_log(q.log, outcome_of(k, r, d) + [("done", r)]), NEXT, k, q.log)
            q.log = []


# ------------------------------------------------------------------ start
class Source:
    def __init__(self, world, n):
        self.world = world
        self.gate = Gate()
        self.got = None
        self.calls = 0

    async def start(self, h, queue, *predicates):
        self.calls += 1
        self.got = (h, queue, predicates)
        return await self.gate.wait()


async def c03():
    """Sources, sync, workers; failures and cancellation everywhere."""
    n = 1 + sa.choose(2, "workers")
    w = World(n)
    q = w.q
    ns = sa.choose(3, "sources")
    srcs = []
    for i in range(ns):
        s = Source(w, i)
        h = Odd()
        ps = [Odd() for _ in range(sa.choose(3, "predicates") if i == 0 else 1)]
        await w.c.watch(s, h, *ps)
        srcs.append((s, h, ps))
    FAIL = "however start ends, the queue is shut down"
    t = asyncio.ensure_future(w.c.start())
    left = [x for x in srcs]
    while True:
        await sa.settle()
        sa.check(not w.do.asked, "no reconcile runs before the caches are synced")
        sa.check(not t.done(), "start goes on until it is cancelled or fails")
        if q.waiting:
            q.give(request())                # a worker that is there before its time gets work
            continue
        if sa.flag("cancel"):
            return await cancelled(t, q, FAIL)
        op = [x for x in left if x[0].gate.open()]
        if op:
            s, h, ps = op[sa.choose(len(op), "source")]
            sa.check(s.calls == 1 and s.got[0] is h and s.got[1] is q and len(s.got[2]) == len(ps)
                     and all([s.got[2][i] is ps[i] for i in range(len(ps))]),
                     "every source is started with its own handler, the queue and its predicates")
            sa.check(not w.cache.sync.open(), "the caches are awaited after every source was started")
            if sa.flag("source fails"):
                s.gate.fail()
                await sa.settle()
                sa.check(t.done() and not t.cancelled() and t.exception() is not None, "start fails if a source fails")
                sa.check(q.down, FAIL)
                return
            left.remove((s, h, ps))
            s.gate.give(None)
            continue
        sa.check(not left, "every watched source is started", len(left))
        sa.check(w.cache.sync.open(), "start waits for the caches")
        k = sa.choose(3, "sync")
        if k == 0:
            w.cache.sync.give(False)
        elif k == 1:
            w.cache.sync.fail()
        else:
            break
        await sa.settle()
        sa.check(t.done() and not t.cancelled() and t.exception() is not None, "start fails if the caches cannot be synced")
        sa.check(q.down, FAIL)
        sa.check(not w.do.asked, "no reconcile runs before the caches are synced")
        return
    w.cache.sync.give(True)
    await sa.settle()
    await sa.point()
    if sa.flag("cancel after the sync"):
        return await cancelled(t, q, FAIL)
    sa.check(len(q.waiting) == n, "exactly the configured number of workers runs", len(q.waiting))
    for i in range(n):
        q.give(request("n%d" % i))
    await sa.settle()
    sa.check(len(w.do.asked) == n and not q.waiting, "exactly the configured number of workers runs", w.do.asked)
    for s, h, ps in srcs:
        sa.check(s.calls == 1, "every watched source is started once")
    if sa.flag("cancel while reconciling"):
        for _ in range(sa.choose(3, "turns")):
            await asyncio.sleep(0)
        await cancelled(t, q, FAIL)


async def cancelled(t, q, label):
    t.cancel()
    await sa.settle()
    sa.check(t.done() and t.cancelled(), "cancelling start reaches the caller")
    sa.check(q.down, label)
    sa.check(not running(), "no worker is left when start has ended", origins(running()))


# ------------------------------------------------------------------ events
class Meta(Full):
    def __init__(self, namespace, name):
        self.namespace = namespace
        self.name = name


class Thing(Falsy):
    def __init__(self, namespace, name):
        self.metadata = Meta(namespace, name)


class Bare:
    pass


class Pred:
    def __init__(self, log):
        self.log = log
        self.accepts = True

    def ask(self, kind, e, n):
        sa.check(kind == self.kind, "predicates of other event kinds are not asked", kind)
        sa.check(self.right(e), "a predicate is asked about the event itself")
        return self.accepts

    def create(self, e):
        return self.ask("create", e, 1)

    def update(self, e):
        return self.ask("update", e, 2)

    def delete(self, e):
        return self.ask("delete", e, 1)

    def generic(self, e):
        return self.ask("generic", e, 1)


def thing(i, form):
    """An object of the given form and the request it stands for (None without metadata)."""
    ns = sa.tok("ns%d" % i)
    name = sa.tok("name%d" % i)
    if form == 0:
        return Thing(ns, name), (ns, name)
    if form == 1:
        return {"metadata": {"namespace": ns, "name": name}}, (ns, name)
    if form == 2:
        return Thing(None, name), (None, name)
    if form == 3:
        return Bare(), None
    if form == 4:
        return {"kind": "x"}, None
    t = Thing(ns, name)
    t.metadata = None
    return t, None


def is_request(item, want):
    return isinstance(item, reconcile.Request) and sa.same(item.namespaced_name.namespace, want[0]) \
        and sa.same(item.namespaced_name.name, want[1])


def names(meta, want):
    """The metadata is that of the object (whatever it is, for an object without any)."""
    return want is None or meta is not None and sa.same(meta.namespace, want[0]) and sa.same(meta.name, want[1])


class Requests:
    def __init__(self):
        self.items = []

    async def add(self, item):
        await asyncio.sleep(0)
        self.items.append(item)

    async def add_after(self, item, d):
        sa.fail("an event enqueues its request at once")

    add_rate_limited = add_after


async def c04():
    """Every kind of event, every form of object, every combination of predicates."""
    q = Requests()
    c = Cache()
    src = source.Kind(Thing)
    src.inject_cache(c)
    preds = [Pred(q) for _ in range(sa.choose(3, "predicates"))]
    await must("a source starts", src.start(handler.EnqueueRequestForObject(), q, *preds))
    sa.check(len(c.informers) == 1 and c.informers[0].type is Thing and len(c.informers[0].handlers) == 1,
             "a source registers with the informer of its kind")
    h = c.informers[0].handlers[0]
    kind = sa.choose(4, "event")
    for p in preds:
        p.accepts = sa.flag("accepts")
        p.kind = ("create", "update", "delete", "delete")[kind]
    old, want = thing(0, sa.choose(6, "object"))
    given = old
    new = None
    if kind == 1:
        new, want2 = thing(1, sa.choose(6, "new object"))
    if kind == 3:
        if sa.flag("last object unknown"):
            old, want = None, None
        given = delta_fifo.DeletedFinalStateUnknown("k", old)
    for p in preds:
        if kind == 0 or kind >= 2:
            p.right = lambda e: e.object is old and names(e.meta, want)
        else:
            p.right = lambda e: e.object_old is old and e.object_new is new and names(e.meta_old, want) and names(e.meta_new, want2)
    if kind == 0:
        await must("on_add returns", h.on_add(given))
    elif kind == 1:
        await must("on_update returns", h.on_update(given, new))
    else:
        await must("on_delete returns", h.on_delete(given))
    ok = all([p.accepts for p in preds])
    if not ok:
        sa.check(not q.items, "an event that a predicate rejects enqueues nothing", q.items)
    elif kind == 1:
        if want is None and want2 is None:
            sa.check(not q.items, "an event without metadata enqueues nothing", q.items)
        elif want is None or want2 is None:
            sa.check(not q.items, "an event without metadata enqueues nothing", q.items)
        else:
            sa.check(len(q.items) == 2 and (is_request(q.items[0], want) and is_request(q.items[1], want2) or
                                            is_request(q.items[1], want) and is_request(q.items[0], want2)),
                     "an update enqueues the request of the old and of the new object", q.items)
    elif want is None:
        sa.check(not q.items, "an event without metadata enqueues nothing", q.items)
    else:
        sa.check(len(q.items) == 1 and is_request(q.items[0], want), "an event enqueues the request of its object", q.items)


def rich(name, version, **more):
    t = Thing("ns", name)
    m = t.metadata
    m.uid, m.resource_version, m.generation, m.creation_timestamp = "u1", version, 4, "then"
    for k in more:
        setattr(m, k, more[k])
    return t


async def c04_update():
    """Updates of whatever kind: nothing changed, only parts of the metadata, another object of the same name."""
    q = Requests()
    c = Cache()
    src = source.Kind(Thing)
    src.inject_cache(c)
    await must("a source starts", src.start(handler.EnqueueRequestForObject(), q))
    h = c.informers[0].handlers[0]
    old = rich("a", "5")
    k = sa.choose(10, "change")
    new = old if k == 0 else (
        rich("a", "5"), rich("a", "6"), rich("a", "6", generation=5), rich("a", "6", deletion_timestamp="now", finalizers=["f"]),
        rich("a", "6", labels={"l": "v"}), rich("a", "6", annotations={"l": "v"}), rich("a", "4"), rich("a", "9", uid="u2"),
        rich("a", None, uid=None))[k - 1]
    if sa.flag("being deleted before"):
        old.metadata.deletion_timestamp = "before"
    await must("on_update returns", h.on_update(old, new))
    # The two requests are equal, so a queue makes one of them: adding it once is as good.
    sa.check(len(q.items) in (1, 2) and all([is_request(x, ("ns", "a")) for x in q.items]),
             "an update enqueues the request of the old and of the new object", q.items)
    q.items = []
    if sa.flag("deleted"):
        await must("on_delete returns", h.on_delete(new))
    else:
        await must("on_add returns", h.on_add(new))
    sa.check(len(q.items) == 1 and is_request(q.items[0], ("ns", "a")), "an event enqueues the request of its object", q.items)


async def c04_direct():
    """The enqueuing handler by itself, with events that carry no metadata."""
    q = Requests()
    h = handler.EnqueueRequestForObject()
    a, b = Meta(sa.tok("ns"), sa.tok("name")), Meta(sa.tok("ns2"), sa.tok("name2"))
    k = sa.choose(3, "event")
    ga, gb = sa.flag("with metadata"), sa.flag("with new metadata")
    if k == 0:
        await must("create returns", h.create(event.CreateEvent(a if ga else None, None), q))
    elif k == 1:
        await must("update returns", h.update(event.UpdateEvent(meta_old=a if ga else None, object_old=None,
                                                                meta_new=b if gb else None, object_new=None), q))
    else:
        await must("delete returns", h.delete(event.DeleteEvent(a if ga else None, None), q))
    want = [(m.namespace, m.name) for m, g in ((a, ga), (b, gb and k == 1)) if g]
    sa.check(len(q.items) == len(want), "each metadata of an event enqueues one request", q.items)
    for w in want:
        sa.check(any([is_request(x, w) for x in q.items]), "an event enqueues the request of its object", q.items)


async def c04_built():
    """A controller made by the builder: from the informer's event to the reconcile."""
    c = Cache()
    m = Manager(c)
    do = Reconciler()
    await must("build_controller returns", builder.build_controller(m, do, api_type=Thing))
    sa.check(len(m.runnables) == 1, "the controller is added to the manager once", len(m.runnables))
    sa.check(len(c.informers) > 0 and c.informers[0].type is Thing, "the builder asks for the informer of its kind")
    q = Queue()
    m.runnables[0].make_queue = lambda: q
    t = asyncio.ensure_future(m.runnables[0].start())
    await sa.settle()
    hs = [h for i in c.informers for h in i.handlers]
    sa.check(len(hs) == 1, "the built controller registers one handler", len(hs))
    c.sync.give(True)
    await sa.settle()
    o, want = thing(0, sa.choose(3, "object"))
    k = sa.choose(4, "event")
    if k == 0:
        await hs[0].on_add(o)
    elif k == 1:
        await hs[0].on_update(o, o)
    elif k == 2:
        await hs[0].on_delete(o)
    else:
        await hs[0].on_delete(delta_fifo.DeletedFinalStateUnknown("k", o))
    sa.check(len(q.log) > 0, "an event of the built controller's kind enqueues its request")
    for e in q.log:
        sa.check(e[0] == "add" and is_request(e[1], want), "an event enqueues the request of its object", e)


# ------------------------------------------------------------------ injection
class Hooks:
    """Something that takes the cache and the function that passes things on."""

    def __init__(self):
        self.cache = None
        self.func = None
        self.cached = 0

    def inject_cache(self, c):
        self.cache = c
        self.cached += 1

    def inject_func(self, f):
        self.func = f

    async def reconcile(self, req):
        return reconcile.Result()


class OnlyCache:
    cache = None

    def inject_cache(self, c):
        self.cache = c


class OnlyFunc:
    func = None

    def inject_func(self, f):
        self.func = f


class Part(Falsy, Hooks):
    async def start(self, *a):
        pass


def make_part(k):
    return (Part, OnlyCache, OnlyFunc, Odd)[k]()


def injected(x, c, depth=2):
    """x has what it asks for; what it passes on gets the same."""
    CACHE = "everything handed to a manager or a controller gets the manager's cache if it asks for it"
    FUNC = "everything handed to a manager or a controller gets a function that passes the cache on, if it asks for it"
    if hasattr(x, "inject_cache"):
        sa.check(x.cache is c, CACHE, type(x).__name__)
    if hasattr(x, "inject_func"):
        sa.check(x.func is not None, FUNC, type(x).__name__)
        if depth and x.func is not None:
            for k in range(4):
                y = make_part(k)
                r, e = outcome_sync(x.func, y)
                sa.check(e is None, FUNC, e)
                injected(y, c, depth - 1)


async def c10():
    """Everything handed over, with every combination of hooks."""
    c = Cache()
    old = cache.new
    cache.new = lambda **kw: c
    m = manager.new()
    other = manager.new()
    cache.new = old
    sa.check(m.get_cache() is c, "the manager gives access to its cache")
    k = sa.choose(4, "hooks")
    do = make_part(k)
    r, e = outcome_sync(controller.new, m, reconciler=do)
    sa.check(e is None, "a controller is made of any reconciler", e)
    injected(do, c)
    parts = [make_part(sa.choose(4, "source")), make_part(sa.choose(4, "handler"))]
    n = sa.choose(3, "predicates")
    for i in range(n):
        parts.append(make_part((k + i) % 4))
    await must("watch returns", r.watch(*parts))
    for p in parts:
        injected(p, c, 1)
    x = make_part(k)
    m.add(x)
    injected(x, c)


async def c10_source():
    """A source takes its informer from the cache it was given, and starts with none else."""
    s = source.Kind(Thing)
    h = handler.EnqueueRequestForObject()
    q = Queue()
    if sa.flag("without a cache"):
        r, e = await outcome(s.start(h, q))
        sa.check(e is not None, "a source without a cache refuses to start")
        return
    c = Cache()
    s.inject_cache(c)
    ps = [Odd() for _ in range(sa.choose(3, "predicates"))]
    await must("a source starts", s.start(h, q, *ps))
    sa.check(len(c.informers) == 1 and c.informers[0].type is Thing, "a source asks for the informer of its kind", c.informers)
    hs = c.informers[0].handlers
    sa.check(len(hs) == 1, "a source registers one handler", len(hs))


async def c10_reconcile():
    """A controller reconciles by its reconciler."""
    w = World(1)
    t = asyncio.ensure_future(w.c.reconcile(request()))
    await sa.settle()
    sa.check(not t.done() and w.do.asked == [request()], "reconcile asks the reconciler, once", w.do.asked)
    if sa.flag("fails"):
        w.do.gates[0].fail()
        await sa.settle()
        sa.check(t.done() and isinstance(t.exception(), Boom), "what the reconciler raises reaches the caller")
        return
    res = reconcile.Result(requeue_after=3)
    w.do.gates[0].give(res)
    await sa.settle()
    sa.check(t.done() and t.exception() is None and t.result() is res, "what the reconciler answers reaches the caller")
