"""Two instances of one component never influence each other."""
import asyncio
import sa
from aiok8s.api import meta
from aiok8s.cache import controller as cache_controller
from aiok8s.cache import delta_fifo, fifo, shared_informer, store
from aiok8s.controller import cache, controller, handler, manager, reconcile, source
from aiok8s.util import clock, retry, wait
from aiok8s.watch import mux, watch
from aiok8s.workqueue import default_rate_limiters, delaying_queue, queue, rate_limiting_queue
from kubernetes_asyncio.client import models
from specs.common import *
from specs.cachespec import serve, key, pod, synced
from specs.ctrl import Hooks, Manager as Handing, Cache as FakeCache
from specs.elect import World as Election
from specs.reflect import Env, Gate
from specs.informer import Handler, Listing, Thing, World, Frozen
from specs.stores import Obj, key_of, A, B

APART = "two instances of one component share nothing"


def pair(make):
    """The used one and the other, made before or after its use."""
    early = sa.flag("both made first")
    a = make()
    b = make() if early else None
    return a, lambda: b if early else make()


async def x04_queues():
    kind = sa.choose(3, "queue")
    make = (queue.new, delaying_queue.new, rate_limiting_queue.new)[kind]
    a, other = pair(make)
    await must("add returns", a.add("x"))
    await must("add returns", a.add("y"))
    await must("get returns an available item", a.get())
    await must("add returns", a.add("x"))
    if kind:
        await must("add_after returns", a.add_after("z", 1))
    if kind == 2:
        await must("add_rate_limited returns", a.add_rate_limited("x"))
    await sa.settle()
    if sa.flag("shut down"):
        await must("shut_down returns", a.shut_down())
    b = other()
    sa.check(len(b) == 0 and not b.shutting_down(), APART, len(b))
    if kind == 2:
        sa.check(b.num_requeues("x") == 0, APART)
    if sa.flag("the clock moves"):
        sa.fire()
        await sa.settle()
        sa.check(len(b) == 0, APART, len(b))
    for k in ("y", "x", "z"):
        await must("add returns", b.add(k))
    sa.check(len(b) == 3, APART, len(b))
    for k in ("y", "x", "z"):
        r = await must("get returns an available item", b.get())
        sa.check(r == (k, False), APART, r)
        await must("done returns", b.done(k))
    if not a.shutting_down():
        n = len(a)
        await must("shut_down returns", b.shut_down())
        sa.check(not a.shutting_down() and len(a) == n, APART)


async def x04_limiters():
    sa.assume(sa.now() > 1000)
    kind = sa.choose(3, "limiter")

    def make():
        if kind == 0:
            return default_rate_limiters.ItemExponentialFailureRateLimiter(1, 100)
        if kind == 1:
            return default_rate_limiters.BucketRateLimiter(1, 2)
        return default_rate_limiters.default_controller_rate_limiter()
    a, other = pair(make)
    first = None
    for i in range(3):
        d = a.when("x")
        first = d if i == 0 else first
    b = other()
    sa.check(b.num_requeues("x") == 0, APART)
    sa.check(b.when("x") == first, APART)
    a.forget("x")
    sa.check(b.num_requeues("x") == (0 if kind == 1 else 1), APART, b.num_requeues("x"))


async def x04_stores():
    kind = sa.choose(5, "store")

    def make():
        if kind == 0:
            return store.new_store(key_of)
        if kind == 1:
            return store.new_indexer(key_of, {"k": lambda o: [o.key]})
        if kind == 2:
            return fifo.FIFO(key_of)
        if kind == 3:
            return delta_fifo.DeltaFIFO(key_of)
        return delta_fifo.DeltaFIFO(key_of, store.new_store(key_of))
    a, other = pair(make)
    await must("add returns", a.add(Obj(A)))
    await must("replace returns", a.replace([Obj(A), Obj(B)], "1"))
    await must("update returns", a.update(Obj(A)))
    if kind > 1 and sa.flag("close"):
        await must("close returns", a.close())
    b = other()
    sa.check(not b.list() and not b.list_keys() and b.get_by_key(A) is None, APART, b.list_keys())
    if kind == 1:
        sa.check(not await b.by_index("k", A) and not await b.list_index_func_values("k"), APART)
        await must("add_indexers returns", b.add_indexers({"j": lambda o: [1]}))
        sa.check(list(a.get_indexers()) == ["k"], APART, a.get_indexers())
    if kind > 1:
        sa.check(not b.has_synced() and not b.is_closed(), APART)
    o = Obj(B)
    await must("add returns", b.add(o))
    sa.check(b.list_keys() == [B], APART, b.list_keys())
    sa.check(len(a.list_keys()) == 2, APART, a.list_keys())
    if kind > 1:
        async def process(x):
            pass
        await must("pop returns when something is pending", b.pop(process))
        sa.check(b.list_keys() == [] and len(a.list_keys()) == 2, APART)


async def x04_watch():
    a, other = pair(watch.new_fake)
    t = asyncio.ensure_future(a.add("x"))
    await sa.settle()
    b = other()
    if sa.flag("stop"):
        await must("stop returns", a.stop())
        sa.check(not b.is_stopped(), APART)
    n = asyncio.ensure_future(b.__anext__())
    await sa.settle()
    sa.check(not n.done(), APART)
    u = asyncio.ensure_future(b.modify("y"))
    await sa.settle()
    sa.check(n.done() and n.result()["object"] == "y" and u.done(), APART)
    t.cancel()


async def x04_mux():
    full = sa.pick(mux.FullChannelBehavior.WAIT_IF_CHANNEL_FULL, mux.FullChannelBehavior.DROP_IF_CHANNEL_FULL)
    make = lambda: mux.Broadcaster(2, full)
    a, other = pair(make)
    w = await must("watch returns", a.watch())
    await must("action returns", a.action("ADDED", "x"))
    await sa.settle()
    b = other()
    v = await must("watch returns", b.watch())
    n = asyncio.ensure_future(v.__anext__())
    await sa.settle()
    sa.check(not n.done(), APART)
    await must("shutdown returns", a.shutdown())
    await sa.settle()
    sa.check(not n.done(), APART)
    await must("action returns", b.action("MODIFIED", "y"))
    await sa.settle()
    sa.check(n.done() and n.result()["object"] == "y", APART)
    await must("stop returns", w.stop())
    n = asyncio.ensure_future(v.__anext__())
    await sa.settle()
    sa.check(not n.done(), APART)
    n.cancel()


async def x04_clocks():
    a, other = pair(lambda: clock.FakeClock(100))
    t = a.new_timer(5)
    a.new_ticker(3)
    b = other()
    sa.check(not b.has_waiters(), APART)
    u = b.new_timer(5)
    await must("step returns", a.step(10))
    sa.check(b.now() == 100 and u.c().empty() and not t.c().empty(), APART)
    k = wait.Backoff(steps=3, duration=1, factor=2)
    l = wait.Backoff(steps=3, duration=1, factor=2)
    k.step()
    sa.check(l.step() == 1, APART)


async def x04_informers():
    """Two informers on two servers; a handler of one hears nothing of the other."""
    shared = sa.flag("shared")
    early = sa.flag("both made first")
    v = World(shared)
    w = World(shared)
    await v.make()
    if early:
        await w.make()
    v.go()
    await sa.settle()
    v.give_list([2, 2])
    await v.watching()
    v.check_told()
    if not early:
        await w.make()
    sa.check(not w.inf.has_synced(), APART)
    w.check_store()
    w.go()
    await sa.settle()
    w.give_list([2, 0])
    await w.watching()
    for x in (v, w):
        x.check_store()
        x.check_told()
    v.send(0, True)
    await sa.settle()
    for x in (v, w):
        x.check_store()
        x.check_told()
    if sa.flag("stop"):
        v.t.cancel()
        await sa.settle()
        w.send(1, False)
        await sa.settle()
        sa.check(not w.t.done(), APART)
        w.check_store()
        w.check_told()


async def x04_caches():
    """Two caches and two managers in one process."""
    s = serve()
    a, other = pair(cache.new)
    i = await must("get_informer returns", a.get_informer(models.V1Pod))
    t = asyncio.ensure_future(a.start())
    await synced(a)
    b = other()
    r, e = await outcome(b.get(key("ns", "n"), models.V1Pod))
    sa.check(isinstance(e, cache.CacheNotStartedError), APART, r, e)
    j = await must("get_informer returns", b.get_informer(models.V1Pod))
    sa.check(i is not j and not j.has_synced() and i.has_synced(), APART)
    n = len(s.lists)
    u = asyncio.ensure_future(b.start())
    await synced(b)
    sa.check(len(s.lists) > n and j.has_synced(), APART)
    t.cancel()
    await sa.settle()
    sa.check(t.done() and not u.done(), APART)


async def x04_managers():
    a, other = pair(manager.new)
    a.add(Hooks())
    b = other()
    sa.check(b.get_cache() is not a.get_cache(), APART)
    started = []

    class Quiet:
        async def start(self):
            started.append(self)
            await Gate().wait()
    x, y = Quiet(), Quiet()
    serve()
    a = manager.new()
    a.add(x)
    b.add(y)
    t = asyncio.ensure_future(b.start())
    await sa.settle()
    sa.fire()
    await sa.settle()
    sa.check(started == [y], APART, len(started))
    u = asyncio.ensure_future(a.start())
    await sa.settle()
    sa.check(started == [y, x] and not t.done(), APART, len(started))
    t.cancel()
    u.cancel()
    await sa.settle()


class Source:
    def __init__(self):
        self.calls = 0

    async def start(self, h, q, *p):
        self.calls += 1
        self.queue = q


async def x04_controllers():
    class Do:
        async def reconcile(self, r):
            return reconcile.Result()
    c = FakeCache()
    a, other = pair(lambda: controller.new(Handing(c), reconciler=Do()))
    s1, s2 = Source(), Source()
    await must("watch returns", a.watch(s1, handler.EnqueueRequestForObject()))
    a.max_concurrent_reconciles = 3
    b = other()
    sa.check(b.max_concurrent_reconciles == 1, APART)
    await must("watch returns", b.watch(s2, handler.EnqueueRequestForObject()))
    t = asyncio.ensure_future(b.start())
    await sa.settle()
    sa.check(s1.calls == 0 and s2.calls == 1, APART)
    u = asyncio.ensure_future(a.start())
    await sa.settle()
    sa.check(s1.calls == 1 and s2.calls == 1 and s1.queue is not s2.queue, APART)
    t.cancel()
    await sa.settle()
    sa.check(s2.queue.shutting_down() and not s1.queue.shutting_down() and not u.done(), APART)
    u.cancel()
    await sa.settle()


class Handlers:
    def __init__(self):
        self.handlers = []

    async def get_informer(self, t):
        return self

    async def add_event_handler(self, h, **kw):
        self.handlers.append(h)


class Kept:
    def __init__(self):
        self.items = []

    async def add(self, x):
        self.items.append(x)


async def x04_sources():
    """Two sources of one kind, each with its own cache, queue and predicates."""
    a, other = pair(lambda: source.Kind(Thing))
    c, d = Handlers(), Handlers()
    p, q = Kept(), Kept()
    a.inject_cache(c)
    await must("a source starts", a.start(handler.EnqueueRequestForObject(), p))
    b = other()
    b.inject_cache(d)
    await must("a source starts", b.start(handler.EnqueueRequestForObject(), q))
    sa.check(len(c.handlers) == 1 and len(d.handlers) == 1, APART, len(c.handlers), len(d.handlers))
    await must("on_add returns", d.handlers[0].on_add({"metadata": {"namespace": "n", "name": "x"}}))
    sa.check(len(q.items) == 1 and not p.items, APART)
    await must("on_add returns", c.handlers[0].on_add({"metadata": {"namespace": "n", "name": "y"}}))
    sa.check(len(q.items) == 1 and len(p.items) == 1, APART)


async def x04_electors():
    v = Election()
    w = Election()
    v.go()
    await sa.settle()
    v.lock.get_gate.give((None, None))
    await sa.settle()
    v.lock.put_gate.give(None)
    v.wrote()
    await sa.settle()
    sa.check(v.e.is_leader() and not w.e.is_leader(), APART)
    if sa.flag("made later"):
        w = Election()
        sa.check(not w.e.is_leader(), APART)
    w.go()
    await sa.settle()
    w.put("other")
    w.lock.get_gate.give((w.rec, w.raw))
    await sa.settle()
    sa.check(not w.e.is_leader() and v.e.is_leader() and w.lead.starts == 0 and w.lock.written is None, APART)
    w.t.cancel()
    await sa.settle()
    sa.check(w.t.done() and not v.t.done() and v.lead.stops == 0, APART)
