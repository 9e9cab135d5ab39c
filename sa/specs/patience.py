"""Nothing gives up by itself: what waits goes on waiting however much time passes, and delays of any size are kept."""
import asyncio
import sa
from aiok8s.cache import delta_fifo, fifo, shared_informer
from aiok8s.cache.delta_fifo import DeltaFIFO
from aiok8s.controller import manager, reconcile
from aiok8s.controller import cache as kcache
from aiok8s.util import clock
from aiok8s.watch import mux, watch
from aiok8s.workqueue import delaying_queue, queue, rate_limiting_queue
from specs.common import *
from specs import cachespec, ctrl, elect, informer, muxes, reflect

AGES = 10 ** 6


async def ages():
    """A very long time, and whatever was set to happen in it."""
    for _ in range(3):
        sa.advance(AGES)
        await sa.settle()
    for _ in range(8):
        if not sa.fire():
            break
        await sa.settle()
    await sa.settle()


# ------------------------------------------------------------------ queues
async def queues():
    """Workers wait for ever for an item, and keep one for ever."""
    k = sa.choose(2, "queue")
    q = delaying_queue._DelayingType(VClock()) if k else queue.new()
    t = asyncio.ensure_future(q.get())
    u = asyncio.ensure_future(q.get())
    await ages()
    sa.check(not t.done() and not u.done(), "get waits until there is an item")
    await must("add returns", q.add("x"))
    await sa.settle()
    sa.check(t.done() and not u.done() and t.result() == ("x", False), "a waiting item goes to a waiting getter")
    await must("add returns", q.add("x"))
    await ages()
    sa.check(not u.done() and len(q) == 0, "an item is not handed out while another worker processes it")
    await must("done returns", q.done("x"))
    await sa.settle()
    sa.check(u.done() and u.result() == ("x", False), "an item added while it was processed is handed out again")
    await must("add returns", q.add("y"))
    await ages()
    sa.check(len(q) == 1, "an item that was added waits until it is taken")
    await must("shut_down returns", q.shut_down())
    await ages()
    x, down = await must("get returns an available item", q.get())
    sa.check(x == "y" and not down, "items waiting are still handed out")
    await must("done returns", q.done("y"))
    await must("done returns", q.done("x"))
    x, down = await must("get returns after the shutdown", q.get())
    sa.check(down, "every get returns the marker once nothing is left")


DELAYS = (0.0005, 0.05, 9.5, 59.5, 601, 3700.25, 90000, 3000000)


class Limiter:
    def __init__(self):
        self.at = None

    def when(self, item):
        return self.at

    def forget(self, item):
        pass

    def num_requeues(self, item):
        return 0


async def delays():
    """A delay of any size is kept exactly, alone or with others."""
    limited = sa.flag("rate limited")
    lim = Limiter()
    q = rate_limiting_queue._RateLimitingType(lim, VClock())
    await sa.settle()
    d = DELAYS[sa.choose(len(DELAYS), "delay")]

    async def put(x, d):
        if limited:
            lim.at = d
            await must("add_rate_limited returns", q.add_rate_limited(x))
        else:
            await must("add_after returns", q.add_after(x, d))
    t0 = sa.now()
    other = sa.choose(3, "another")
    if other == 1:
        await put("o", d / 4)
    await put("x", d)
    if other == 2:
        await put("o", d / 4)
    await sa.settle()
    sa.check(len(q) == 0, "an item never becomes available before its delay")
    sa.advance(d / 2)
    await sa.settle()
    sa.check(len(q) == (1 if other else 0), "an item becomes available as soon as the clock passes its delay", len(q))
    if other:
        x, down = await must("get returns an available item", q.get())
        sa.check(x == "o", "an item never becomes available before its delay", x)
    sa.advance(d / 2 - d / 1024)
    await sa.settle()
    sa.check(len(q) == 0, "an item never becomes available before its delay")
    sa.advance(d / 1024)
    await sa.settle()
    sa.check(len(q) == 1, "an item becomes available as soon as the clock passes its delay", d)
    x, down = await must("get returns an available item", q.get())
    sa.check(x == "x" and not down, "an item becomes available once per addition", x)
    await must("done returns", q.done("x"))
    await ages()
    sa.check(len(q) == 0, "an item becomes available once per addition", len(q))


def name(o):
    return o


async def fifos():
    """pop waits for ever."""
    plain = sa.flag("plain FIFO")
    q = fifo.FIFO(name) if plain else DeltaFIFO(name, None)
    got = []

    async def process(x):
        await asyncio.sleep(AGES)
        got.append(x)
    listed = sa.flag("a list before")
    if listed:
        await must("replace returns", q.replace([], "1"))
    t = asyncio.ensure_future(q.pop(got.append if plain else process))
    await ages()
    sa.check(not t.done(), "pop waits while nothing is there")
    await must("add returns", q.add("a"))
    await ages()
    sa.check(t.done() and len(got) == 1, "pop returns once an object is there")
    if not plain:
        sa.check([d.type for d in got[0]] == [delta_fifo.DeltaType.ADDED] and t.result() is got[0], "pop returns the changes it processed")
    else:
        sa.check(got == ["a"] and t.result() == "a", "pop returns the object it processed")
    await must("add returns", q.add("b"))
    await ages()
    sa.check(q.list() == ["b"] and q.list_keys() == ["b"], "what was added waits until it is taken")
    t = asyncio.ensure_future(q.pop(got.append if plain else process))
    await ages()
    sa.check(t.done() and len(got) == 2, "pop returns once an object is there")
    t = asyncio.ensure_future(q.pop(got.append if plain else process))
    await ages()
    sa.check(not t.done(), "pop waits while nothing is there")
    await must("close returns", q.close())
    await sa.settle()
    sa.check(t.done() and isinstance(t.exception(), fifo.FIFOClosedError), "a blocked pop fails when the queue is closed")


# ------------------------------------------------------------------ broadcaster
async def buses():
    """Watchers wait for ever, publishers wait for a full watcher for ever."""
    drop = sa.flag("drop when full")
    b = mux.Broadcaster(1, mux.FullChannelBehavior.DROP_IF_CHANNEL_FULL if drop else mux.FullChannelBehavior.WAIT_IF_CHANNEL_FULL)
    w = await must("registration returns", b.watch())
    t = asyncio.ensure_future(w.__anext__())
    await ages()
    sa.check(not t.done(), "a watcher waits for the next event")
    es = [muxes.Ev() for _ in range(4)]
    await must("publishing goes on when no watcher holds it back", b.action("A", es[0]))
    await sa.settle()
    sa.check(t.done() and t.result()["object"] is es[0], muxes.ORDER)
    ps = []
    for e in es[1:]:
        ps.append(asyncio.ensure_future(b.action("A", e)))
        await sa.settle()
    await ages()
    e = await must(muxes.LIVE, w.__anext__())
    sa.check(e["object"] is es[1], muxes.ORDER)
    await ages()
    if not drop:
        for x in es[2:]:
            e = await must(muxes.LIVE, w.__anext__())
            sa.check(e["object"] is x, muxes.ORDER)
            await ages()
    sa.check(all([p.done() for p in ps]), "publishing goes on when no watcher holds it back")
    t = asyncio.ensure_future(w.__anext__())
    await ages()
    sa.check(not t.done(), "a watcher waits for the next event")
    await must("shutdown returns once everything was delivered", b.shutdown())
    await sa.settle()
    sa.check(t.done() and isinstance(t.exception(), StopAsyncIteration), "shutdown ends the iteration of every watcher")


async def fakes():
    f = watch.new_fake()
    t = asyncio.ensure_future(f.__anext__())
    await ages()
    sa.check(not t.done(), "a watcher waits for the next event")
    o = muxes.Ev()
    p = asyncio.ensure_future(f.add(o))
    await sa.settle()
    sa.check(t.done() and t.result()["object"] is o, muxes.ORDER)
    await must("publishing goes on when no watcher holds it back", p)
    t = asyncio.ensure_future(f.__anext__())
    await ages()
    sa.check(not t.done(), "a watcher waits for the next event")
    await must("stop returns", f.stop())
    await sa.settle()
    sa.check(t.done() and isinstance(t.exception(), StopAsyncIteration), muxes.ENDS)


# ------------------------------------------------------------------ reflector, informer
async def reflectors():
    """A watch without events goes on; so does everything else that takes its time."""
    env = reflect.Env()
    r = reflect.reflector.Reflector(env, reflect.Thing, env, 0)
    r._clock = VClock()
    t = asyncio.ensure_future(r.run())
    await ages()
    sa.check(env.list_gate.open() and env.listed == "0" and not t.done(), "the reflector waits for its list")
    env.list_gate.give(reflect.Listing("5", [reflect.Thing("1")]))
    await ages()
    sa.check(env.watch_gate.open() and env.asked == "5" and not t.done(), "the reflector waits for its watch")
    env.watch_gate.give(None)
    await ages()
    sa.check(env.event.open() and not env.list_gate.open() and not t.done(), "a watch without events goes on")
    o = reflect.Thing("6")
    env.op_gate = reflect.Gate()
    env.event.give({"type": "ADDED", "object": o})
    await ages()
    sa.check(env.op_gate.open() and not env.list_gate.open(), "the reflector waits for its store")
    env.op_gate.give(None)
    await ages()
    sa.check(len(env.log) == 2 and env.log[1][0] == "add" and env.log[1][1] is o, reflect.STREAMED, env.log)
    sa.check(env.event.open() and not env.list_gate.open() and not t.done(), "a watch without events goes on")
    sa.check(r.last_sync_resource_version() == "6", reflect.VERSION)
    env.event.give(None)
    await sa.settle()
    sa.check(env.watch_gate.open() and env.asked == "6", "a watch that ended is followed by one from the last version", env.asked)
    t.cancel()
    await sa.settle()
    sa.check(t.done() and t.cancelled() and not running(), "cancelling the reflector ends everything", origins(running()))


async def informers():
    """A handler that takes ages loses nothing and nothing is cut short for it."""
    shared = sa.flag("shared")
    w = informer.World(shared)
    await w.make(mode="slow")
    w.go()
    await sa.settle()
    w.give_list([2, 0])
    await w.watching()
    for step in range(3):
        h = w.handlers[0]
        await ages()
        sa.check(h.gate.open() and h.on == 1, informer.NONE_LOST, step)
        sa.check(w.env.event.open() and not w.env.list_gate.open() and not w.t.done(), "the informer goes on")
        if step < 2:
            w.send(0, step == 1)
            await sa.settle()
        h.gate.give(None)
        await sa.settle()
    await ages()
    w.check_told()
    w.check_store()
    w.t.cancel()
    await sa.settle()
    sa.check(w.t.done() and w.t.cancelled() and not running(), "stopping ends everything the informer started", origins(running()))


async def syncing():
    """Waiting for caches goes on until they are synced."""
    state = [False, False]
    t = asyncio.ensure_future(shared_informer.wait_for_cache_sync(lambda: state[0], lambda: state[1]))
    for i in (0, 1):
        await ages()
        sa.check(not t.done(), "waiting for caches goes on until they are synced", i)
        state[i] = True
    await ages()
    sa.check(t.done() and t.result() is True, "waiting for caches returns true once all are synced")


# ------------------------------------------------------------------ controller, manager, election
async def reconciles():
    """Workers wait for ever, and for a reconcile that takes ages."""
    w = ctrl.World(2)
    t = asyncio.ensure_future(w.c.start())
    await ages()
    sa.check(not t.done() and w.cache.sync.open() and not w.q.waiting, "no reconcile runs before the caches are synced")
    w.cache.sync.give(True)
    await ages()
    q = w.q
    sa.check(len(q.waiting) == 2 and not t.done(), "exactly the configured number of workers runs", len(q.waiting))
    r = ctrl.request()
    q.give(r)
    await ages()
    sa.check(len(w.do.gates) == 1 and w.do.asked == [r] and q.log == [] and len(q.waiting) == 1, ctrl.DONE, q.log)
    d = DELAYS[sa.choose(len(DELAYS), "delay")]
    w.do.gates[0].give(reconcile.Result(requeue_after=d))
    await ages()
    sa.check(ctrl.same_log(q.log, [("forget", r), ("after", r, d), ("done", r)]), ctrl.NEXT, q.log)
    sa.check(len(q.waiting) == 2 and not t.done(), ctrl.ALIVE)
    await must("shut_down returns", q.shut_down())
    t.cancel()
    await sa.settle()
    sa.check(t.done() and not running(), "when start has ended nothing runs", origins(running()))


async def managers():
    c = cachespec.FakeCache([])
    kcache.new = lambda **kw: c
    m = manager.new()
    r = cachespec.Runnable(c)
    m.add(r)
    t = asyncio.ensure_future(m.start())
    await ages()
    sa.check(not t.done() and c.on == 1 and r.starts == 0 and c.sync.open(), "start runs the cache and waits for its sync")
    c.sync.give(True)
    await ages()
    sa.check(not t.done() and c.on == 1 and r.on == 1 and r.starts == 1, "every controller is started once")
    t.cancel()
    await sa.settle()
    sa.check(t.done() and t.cancelled() and c.on == 0 and r.on == 0, "when start has ended nothing runs")


async def leaders():
    """Renewed again and again, a leader leads on; another's lease is respected as long as it is renewed."""
    w = elect.World(release=sa.flag("release"))
    w.go()
    for n in range(12):
        await sa.settle()
        while not w.lock.get_gate.open():
            sa.check(not w.t.done() and sa.fire(), "the candidate goes on until it leads", n)
            await sa.settle()
        w.put("node-11")                     # renewed by its holder
        w.holder = "node-11"
        w.lock.get_gate.give((w.rec, w.raw))
        await sa.settle()
        sa.check(w.lock.written is None and not w.e.is_leader(), elect.SAFE)
    while not w.lock.get_gate.open():
        sa.check(not w.t.done() and sa.fire(), "the candidate goes on until it leads")
        await sa.settle()
    w.put(None)
    w.lock.get_gate.give((w.rec, w.raw))
    await sa.settle()
    for n in range(25):
        sa.check(w.lock.put_gate.open() and w.lock.how == "update", "a free or own lease is taken")
        w.lock.put_gate.give(None)
        w.wrote()
        await sa.settle()
        sa.check(w.lead.starts == 1 and w.lead.stops == 0 and not w.lead.cancelled and w.e.is_leader() and not w.t.done(),
                 "a leader that renews in time keeps leading", n)
        while not w.lock.get_gate.open():
            sa.check(not w.t.done() and sa.fire(), "a leader renews again after each retry period", n)
            await sa.settle()
        w.lock.get_gate.give((w.rec, w.raw))
        await sa.settle()
    sa.check(w.lead.on == 1 and w.lead.starts == 1, "on_started_leading is started once")
