"""Failures of every kind from every place that is called back, and sizes at the limits of what queues and counters hold."""
import asyncio
import sa
from aiok8s.cache import controller as cache_controller
from aiok8s.cache import delta_fifo, fifo, reflector, shared_informer, store
from aiok8s.cache.delta_fifo import DeltaFIFO, DeletedFinalStateUnknown, DeltaType
from aiok8s.util import wait
from aiok8s.watch import mux
from aiok8s.workqueue import default_rate_limiters, delaying_queue, queue, rate_limiting_queue
from specs.common import *
from specs import ctrl, elect, informer, muxes, reflect, workqueue
from specs.reflect import Boom, Gate, Listing, Thing


class OwnError(Exception):
    def __init__(self, a, b):
        Exception.__init__(self, a, b)


KINDS = 16


def error(k):
    """An exception a callback may raise; none of them means anything to the library."""
    if k == 0:
        return OwnError(1, 2)
    return (asyncio.TimeoutError, wait.WaitTimeoutError, asyncio.QueueEmpty, asyncio.QueueFull, StopAsyncIteration, KeyError,
            IndexError, AttributeError, TypeError, ValueError, OSError, asyncio.InvalidStateError, RuntimeError, OverflowError,
            AssertionError)[k - 1]()


def fail(gate, k):
    gate.fut.set_exception(error(k))


# ------------------------------------------------------------------ reflector
async def paused(env, t):
    """A new list follows, after a pause."""
    sa.check(not t.done(), "run returns only by cancellation")
    sa.check(not env.list_gate.open(), "a failure is followed by a pause")
    sa.check(sa.fire(), "after a failure the objects are listed again")
    await sa.settle()
    sa.check(env.list_gate.open() and not t.done(), "after a failure the objects are listed again")
    sa.check(env.opened == 0, "a watch that failed is closed")


async def reflector_errors():
    env = reflect.Env()
    r = reflector.Reflector(env, Thing, env, 0)
    k = sa.choose(KINDS, "error")
    t = asyncio.ensure_future(r.run())
    await sa.settle()
    fail(env.list_gate, k)
    await sa.settle()
    await paused(env, t)

    def bad(*what):
        raise error(k)
    env.op = bad
    env.list_gate.give(Listing("A", []))
    await sa.settle()
    await paused(env, t)
    sa.check(r.last_sync_resource_version() == "", reflect.VERSION)
    env.op = reflect.passing
    env.list_gate.give(Listing("B", []))
    await sa.settle()
    fail(env.watch_gate, k)
    await sa.settle()
    await paused(env, t)
    env.list_gate.give(Listing("C", []))
    await sa.settle()
    env.watch_gate.give(None)
    await sa.settle()
    log = []

    def noted(*what):
        log.append(what)
        raise error(k)
    env.op = noted
    want = []
    for i in range(3):                     # operations that fail: later events reach the store all the same
        e, calls, v = reflect.make_event(i, "e%d" % i)
        env.event.give(e)
        want.extend(calls)
        await sa.settle()
        sa.check(reflect.same_log(log, want), "a store operation that fails does not stop later events", log)
        sa.check(env.event.open() and not t.done(), "a store operation that fails does not stop later events")
    env.op = reflect.passing
    if k == 5:
        return                             # that one ends a stream
    fail(env.event, k)
    await sa.settle()
    await paused(env, t)
    t.cancel()
    await sa.settle()
    sa.check(t.done() and t.cancelled(), "cancelling run reaches the caller")


class Resyncing(reflect.Env):
    error = None

    async def resync(self):
        self.resyncs += 1
        if self.error is not None:
            raise error(self.error)


async def resync_errors():
    env = Resyncing()
    env.error = sa.choose(KINDS, "error")
    r = reflector.Reflector(env, Thing, env, 30)
    t = asyncio.ensure_future(r.run())
    await sa.settle()
    env.list_gate.give(Listing("A", []))
    await sa.settle()
    env.watch_gate.give(None)
    await sa.settle()
    sa.check(sa.fire() and not env.list_gate.open(), "each period the store is resynced")
    await sa.settle()
    sa.check(env.resyncs == 1, "each period the store is resynced", env.resyncs)
    sa.check(env.opened == 0, "an error of a resync ends the watch")
    await paused(env, t)


class Prompt(reflect.Stream):
    """A stream that is closed at once."""

    async def __aexit__(self, *exc):
        self.env.opened -= 1


class PromptEnv(reflect.Env):
    async def watch(self, options):
        await reflect.Env.watch(self, options)
        self.stream = Prompt(self)
        return self.stream


async def slow_store():
    """Very many events come while the store is at work on the first: none is lost, and the watch goes on after them."""
    env = PromptEnv() if sa.flag("closed at once") else reflect.Env()
    env.op_gate = Gate()
    r = reflector.Reflector(env, Thing, env, 0)
    t = asyncio.ensure_future(r.run())
    await sa.settle()
    env.list_gate.give(Listing("L", []))
    await sa.settle()
    env.watch_gate.give(None)
    await sa.settle()
    env.log = []
    evs, want = [], []
    n = 150
    for i in range(n):
        e, calls, new = reflect.make_event(0 if i == 0 else 1 + i % 2, "v%d" % i)
        evs.append(e)
        want.extend(calls)
    ends = sa.flag("the stream ends then")
    env.stream.backlog = evs[1:] + ([None] if ends else [])
    env.event.give(evs[0])
    await sa.settle()
    sa.check(env.op_gate.open() and len(env.log) == 1, "events call add, update and delete with their object, once, in stream order")
    sa.check(not t.done(), "run returns only by cancellation")
    env.op_gate.give(None)
    await sa.settle()
    sa.check(reflect.same_log(env.log, want), reflect.STREAMED, len(env.log))
    sa.check(r.last_sync_resource_version() == "v%d" % (n - 1), reflect.VERSION)
    if ends:
        sa.check(env.watch_gate.open() and env.asked == "v%d" % (n - 1), "a watch that ends normally is re-opened without a list")
    else:
        sa.check(env.event.open(), "the watch goes on after every event")


# ------------------------------------------------------------------ informers
async def handler_errors():
    """A shared informer's handler raises something: it goes on with its next notification, the other handler is told all."""
    w = informer.World(True)
    await w.make(n=0)
    k = sa.choose(KINDS, "error")
    calls = []

    async def odd(*what):
        calls.append(what[-1])
        raise error(k)
    await w.inf.add_event_handler(cache_controller.ResourceEventHandlerFuncs(odd, odd, odd))
    h = w.handler()
    await w.inf.add_event_handler(h.funcs())
    await informer.started(w, [2, 0])
    sa.check(len(calls) == 1, informer.NONE_LOST)
    for i in range(9):
        w.send(1, i % 3 == 2)
        await sa.settle()
        w.check_store()
        sa.check(h.complete(), informer.ISOLATED)
        for _ in range(3):
            if len(calls) == i + 2:
                break
            sa.check(sa.fire(), "a handler that failed goes on with its next change", k)
            await sa.settle()
        sa.check(len(calls) == i + 2, "a handler that failed goes on with its next change", k, len(calls))
    sa.check(not w.t.done(), "the informer goes on")


async def process_errors():
    """The plain informer's handler raises something: the next change is processed."""
    k = sa.choose(KINDS, "error")
    env = reflect.Env()
    calls = []

    async def odd(*what):
        calls.append(what[-1])
        raise error(k)
    st, inf = cache_controller.new_informer(env, informer.Thing, 0, cache_controller.ResourceEventHandlerFuncs(odd, odd, odd))
    t = asyncio.ensure_future(inf.run())
    await sa.settle()
    x, y = informer.Thing("x", "1"), informer.Thing("y", "1")
    env.list_gate.give(informer.Listing([x, y]))
    await sa.settle()
    sa.check(calls == [x, y] and calls[0] is x, "a failing processing function does not stop the processing loop", len(calls))
    sa.check(inf.has_synced(), informer.SYNCED)
    env.watch_gate.give(None)
    await sa.settle()
    for i in range(3):
        x = informer.Thing("x", str(i + 2))
        env.event.give({"type": ("MODIFIED", "DELETED", "ADDED")[i], "object": x})
        await sa.settle()
        sa.check(len(calls) == i + 3 and calls[-1] is x, "a failing processing function does not stop the processing loop", len(calls))
        sa.check((st.get_by_key("ns/x") is x) == (i != 1), informer.STORE_FIRST)
    sa.check(not t.done(), "the informer goes on")


async def stuck_resync():
    """A handler stuck in one notification misses no resync: each period one is kept for it."""
    w = informer.World(True)
    w.inf = shared_informer.new_shared_informer(w.env, informer.Thing, 2)
    h = informer.Told()
    h.gate = Gate()
    q = informer.Told()
    await w.inf.add_event_handler(h.funcs())
    await w.inf.add_event_handler(q.funcs())
    await informer.started(w, [0, 2])
    o = w.now[1]
    want = [("add", o)]
    sa.check(informer.same_told(q.log, want), informer.NONE_LOST)
    for i in range(6):
        if i == 3:
            old = o
            w.send(1, False)
            o = w.now[1]
            want.append(("update", old, o))
            await sa.settle()
        sa.check(sa.fire(), informer.RESYNCED)
        await sa.settle()
        want.append(("update", o, o))
        sa.check(informer.same_told(q.log, want), "a handler that is due gets one resync per period", len(q.log))
    sa.check(len(h.log) == 1, informer.IN_ORDER)
    while h.gate.open():
        h.gate.give(None)
        await sa.settle()
    sa.check(informer.same_told(h.log, want), "a handler that is due gets one resync per period", len(h.log))


# ------------------------------------------------------------------ FIFO and DeltaFIFO
class Row(Falsy):
    def __init__(self, key):
        self.key = key


def key_of(o):
    return o.key


async def fifo_errors():
    q = fifo.FIFO(key_of)
    k = sa.choose(KINDS, "error")
    a, b = Row("a"), Row("b")
    await q.replace([a, b], "1")

    def bad(o):
        raise error(k)
    r, e = await must("pop returns when an object is pending", outcome(q.pop(bad)))
    sa.check(type(e) is type(error(k)) or isinstance(e, fifo.ProcessError), "an error of the processing function reaches the caller of pop", e)
    sa.check(q.list_keys() == ["b"] and not q.has_synced(), "an object whose processing failed is not pending any more")
    got = []
    await must("pop returns when an object is pending", q.pop(got.append))
    sa.check(got[0] is b and q.has_synced(), "has_synced is true once the first list was popped, and stays true")


async def fifo_requeue():
    """Requeues during the first list and after it: has_synced turns true once and stays so."""
    q = fifo.FIFO(key_of)
    a, b, c = Row("a"), Row("b"), Row("c")
    T = "has_synced is true once the first list was popped, and stays true"
    first = sa.flag("a first list")
    cause = Boom() if sa.flag("with a cause") else None
    if first:
        await q.replace([a, b], "1")
    else:
        await q.add(a)
        await q.add(b)
        sa.check(q.has_synced(), T)

    def again(o):
        if cause is not None:
            raise fifo.RequeueError() from cause
        raise fifo.RequeueError
    left = [a, b]
    for i in range(4):
        if i == 3:
            await q.add(c)
            left.append(c)
        r, e = await must("pop returns when an object is pending", outcome(q.pop(again)))
        left.append(left.pop(0))
        sa.check((e is not None) == (cause is not None), "an error of the processing function reaches the caller of pop", e)
        sa.check(sorted(q.list_keys()) == sorted([o.key for o in left]), "an object requeued is pending again")
        sa.check(q.has_synced() == (not first or i >= 1), T, i)
    while left:
        got = []
        await must("pop returns when an object is pending", q.pop(got.append))
        sa.check(got[0] is left.pop(0), "objects are handed out in the order they became pending")
        sa.check(q.has_synced(), T)
    await q.replace([a], "2")
    sa.check(q.has_synced(), T)


async def delta_errors():
    q = DeltaFIFO(key_of)
    k = sa.choose(KINDS, "error")
    a, b = Row("a"), Row("b")
    await q.replace([a, b], "1")

    async def bad(ds):
        raise error(k)
    r, e = await must("pop returns when a change is pending", outcome(q.pop(bad)))
    sa.check(isinstance(e, fifo.ProcessError) and e.item[0].object is a, "a failed processing is reported with the changes popped", e)
    sa.check(e is not None and type(e.__cause__) is type(error(k)), "a failed processing is reported with its cause", e)
    sa.check(q.list_keys() == ["b"] and not q.has_synced(), "changes whose processing failed are not queued again")
    got = []

    async def good(ds):
        got.append(ds[0].object)
    await must("pop returns when a change is pending", q.pop(good))
    sa.check(got[0] is b and q.has_synced(), "has_synced is true once the first list was processed, and stays true")


async def delta_requeue():
    """Requeues during the first list and after it."""
    q = DeltaFIFO(key_of)
    a, b, c = Row("a"), Row("b"), Row("c")
    T = "has_synced is true once the first list was processed, and stays true"
    first = sa.flag("a first list")
    cause = Boom() if sa.flag("with a cause") else None
    if first:
        await q.replace([a, b], "1")
    else:
        await q.add(a)
        await q.add(b)
        sa.check(q.has_synced(), T)

    async def again(ds):
        if cause is not None:
            raise fifo.RequeueError() from cause
        raise fifo.RequeueError
    left = [a, b]
    for i in range(4):
        if i == 3:
            await q.add(c)
            left.append(c)
        r, e = await must("pop returns when a change is pending", outcome(q.pop(again)))
        left.append(left.pop(0))
        sa.check((e is not None) == (cause is not None), "a failed processing is reported with its cause", e)
        sa.check(sorted(q.list_keys()) == sorted([o.key for o in left]), "changes are queued again if a requeue was asked for")
        sa.check(q.has_synced() == (not first or i >= 1), T, i)
    while left:
        got = []

        async def good(ds):
            got.append(ds)
        await must("pop returns when a change is pending", q.pop(good))
        sa.check(len(got[0]) == 1 and got[0][0].object is left.pop(0), "keys are handed out in the order they became pending")
        sa.check(q.has_synced(), T)
    await q.replace([a], "2")
    sa.check(q.has_synced(), T)


async def delta_same():
    """One and the same object, given again and again: every change counts; only deletions are merged."""
    EXACT = "pop hands out every change of the key since its last pop, in order, each with its own object"
    o = Row("a")
    known = store.new_store(key_of)
    if sa.flag("already known"):
        await known.add(o)
    q = DeltaFIFO(key_of, known)
    want = []
    for _ in range(3):
        k = sa.choose(5, "operation")
        if k == 0:
            await q.add(o)
            want.append(DeltaType.ADDED)
        elif k == 1:
            await q.update(o)
            want.append(DeltaType.UPDATED)
        elif k == 2:
            sa.assume(want or known.list())
            await q.delete(o)
            if not want or want[-1] is not DeltaType.DELETED:
                want.append(DeltaType.DELETED)
        elif k == 3:
            await q.replace([o], "1")
            want.append(DeltaType.SYNC)
        else:
            sa.assume(known.list())
            await q.resync()
            if not want:
                want.append(DeltaType.SYNC)

    async def take(ds):
        sa.check([d.type for d in ds] == want and all([d.object is o for d in ds]), EXACT, [d.type for d in ds], want)
    await must("pop returns when a change is pending", q.pop(take))


async def delta_gone():
    """An object with several changes pending is missing from a list: it is deleted with its last state."""
    GONE = "an object missing from the list is deleted with its last known state"
    known = store.new_store(key_of)
    if sa.flag("known before"):
        await known.add(Row("a"))
    q = DeltaFIFO(key_of, known) if sa.flag("known objects given") else DeltaFIFO(key_of)
    os = []
    n = 1 + sa.choose(4, "changes")
    for i in range(n):
        os.append(Row("a"))
        await (q.update(os[-1]) if i else q.add(os[-1]))
    dead = sa.flag("deleted at last")
    if dead:
        os.append(Row("a"))
        if sa.flag("known by a tombstone"):
            await q.delete(DeletedFinalStateUnknown("a", os[-1]))
        else:
            await q.delete(os[-1])
    b = Row("b")
    await q.replace([b] if sa.flag("another object in it") else [], "2")

    async def take(ds):
        sa.check(len(ds) == n + 1 and all([ds[i].object is os[i] for i in range(n)]), "pop hands out every change of the key since its last pop, in order, each with its own object", len(ds))
        sa.check(ds[n].type is DeltaType.DELETED, GONE)
        d = ds[n].object
        if isinstance(d, DeletedFinalStateUnknown):
            sa.check(d.key == "a", GONE)
            d = d.obj
        else:
            sa.check(dead, "an object missing from the list is deleted through a tombstone")
        sa.check(d is os[-1], GONE, d)
    await must("pop returns when a change is pending", q.pop(take))


# ------------------------------------------------------------------ stores of objects that compare equal
class Same(Falsy):
    """All of these are equal."""

    def __init__(self, key, values):
        self.key = key
        self.values = values

    def __eq__(self, other):
        return isinstance(other, Same)

    def __ne__(self, other):
        return not isinstance(other, Same)

    def __hash__(self):
        return 1


def values_of(o):
    return o.values


async def equal_objects():
    LAST = "get, get_by_key, list and list_keys show exactly the last object stored per key"
    s = store.new_indexer(key_of, {"v": values_of})
    now = {}

    async def right():
        sa.check(sorted(s.list_keys()) == sorted(now) and len(s.list()) == len(now), LAST)
        for k in now:
            sa.check(s.get_by_key(k) is now[k] and s.get(Same(k, [])) is now[k], LAST, k)
            sa.check(any([o is now[k] for o in s.list()]), LAST, k)
        for v in ("p", "q", "r"):
            want = sorted([k for k in now if v in now[k].values])
            sa.check(sorted(await s.index_keys("v", v)) == want, "index_keys returns exactly the keys of the matching stored objects", v)
            found = await s.by_index("v", v)
            sa.check(len(found) == len(want) and all([any([o is now[k] for o in found]) for k in want]),
                     "by_index and index return exactly the matching stored objects, each once", v)
            found = await s.index("v", Same("z", [v]))
            sa.check(len(found) == len(want) and all([any([o is now[k] for o in found]) for k in want]),
                     "by_index and index return exactly the matching stored objects, each once", v)
        used = set([v for k in now for v in now[k].values])
        sa.check(sorted(await s.list_index_func_values("v")) == sorted(used), "list_index_func_values returns exactly the values in use")
    for k, v in (("a", ["p"]), ("b", ["p", "q"]), ("a", ["q"]), ("b", []), ("a", ["q", "r"]), ("c", ["r"])):
        now[k] = Same(k, v)
        await (s.update(now[k]) if sa.flag("update rather than add") else s.add(now[k]))
        await right()
    await s.delete(Same("c", ["p"]))
    now.pop("c")
    await right()
    now = {k: Same(k, [v]) for k, v in (("b", "p"), ("c", "q"))}
    await s.replace(list(now.values()), "1")
    await right()


async def equal_queues():
    """Pending objects that are equal are still told apart."""
    k = sa.choose(2, "queue")
    q = fifo.FIFO(key_of) if k == 0 else DeltaFIFO(key_of)
    os = [Same("a", []), Same("a", []), Same("b", [])]
    for o in os:
        await q.add(o)
    got = []
    if k == 0:
        for _ in range(2):
            await must("pop returns when an object is pending", q.pop(got.append))
        sa.check(got[0] is os[1] and got[1] is os[2], "pop hands out the latest object of the key")
    else:
        async def take(ds):
            got.extend([d.object for d in ds])
        for _ in range(2):
            await must("pop returns when a change is pending", q.pop(take))
        sa.check(len(got) == 3 and all([got[i] is os[i] for i in range(3)]),
                 "pop hands out every change of the key since its last pop, in order, each with its own object", len(got))


# ------------------------------------------------------------------ work queues
class OneLimiter:
    def __init__(self):
        self.asked = []

    def when(self, item):
        self.asked.append(item)
        return 4

    def forget(self, item):
        pass

    def num_requeues(self, item):
        return 0


async def shut_at_once():
    """shut_down takes effect before it returns, also with items still waiting."""
    k = sa.choose(3, "queue")
    c = VClock()
    lim = OneLimiter()
    q = queue.new() if k == 0 else delaying_queue._DelayingType(c) if k == 1 else rate_limiting_queue._RateLimitingType(lim, c)
    n = sa.choose(3, "waiting items")
    for i in range(n):
        await must("add returns", q.add(i))
    held = None
    if n and sa.flag("one of them being processed"):
        held, down = await must("get returns an available item", q.get())
    if k:
        await must("add_after returns", q.add_after("d", 3))
    if sa.flag("settled"):
        await sa.settle()
    await must("shut_down returns", q.shut_down())
    sa.check(q.shutting_down(), "shutting_down reports the shutdown")
    IGNORED = "additions after the shutdown are ignored"
    before = len(q)
    await must("add returns", q.add("late"))
    if k:
        await must("add_after returns", q.add_after("late", 0))
        await must("add_after returns", q.add_after("late", 5))
    if k == 2:
        await must("add_rate_limited returns", q.add_rate_limited("late"))
    sa.check(len(q) == before, IGNORED, len(q))
    for i in range(0 if held is None else 1, n):
        x, down = await must("get returns an available item", q.get())
        sa.check(x == i and not down, "items waiting are still handed out", x, down)
        await must("done returns", q.done(x))
    if held is not None:
        await must("done returns", q.done(held))
    x, down = await must("get returns after the shutdown", q.get())
    sa.check(down, "every get returns the marker once nothing is left", x)
    while sa.fire():
        await sa.settle()
    sa.check(len(q) == 0, IGNORED, len(q))
    x, down = await must("get returns after the shutdown", q.get())
    sa.check(down, "every get returns the marker once nothing is left", x)
    await must("shut_down returns", q.shut_down())
    sa.check(q.shutting_down(), "shutting_down reports the shutdown")


async def round_and_round():
    """One item, delayed again and again, with delays that pass while it waits to be taken in, or the queue is busy."""
    c = VClock()
    q = delaying_queue._DelayingType(c)
    if sa.flag("started"):
        await sa.settle()
    for i in range(6):
        d = (3, 3, 7, 1, 7, 3)[i]
        await must("add_after returns", q.add_after("x", d))
        passed = i % 3 == 1
        if passed:
            sa.advance(d)                  # the queue could not take it in yet
            await sa.settle()
        else:
            await sa.settle()
            sa.check(len(q) == 0, "an item never becomes available before its delay")
            sa.advance(d)
            await sa.settle()
        sa.check(len(q) == 1, "an item becomes available as soon as the clock passes its delay", i)
        x, down = await must("get returns an available item", q.get())
        sa.check(x == "x" and not down, "an item becomes available once per addition")
        await must("done returns", q.done(x))
        for _ in range(2):
            sa.advance(4)
            await sa.settle()
        sa.check(len(q) == 0, "an item becomes available once per addition", i)


async def limited_again():
    """A rate-limited addition of an item that waits, or is being processed, is an addition like any other."""
    lim = OneLimiter()
    q = rate_limiting_queue._RateLimitingType(lim, VClock())
    await sa.settle()
    await must("add returns", q.add("x"))
    k = sa.choose(3, "state")
    if k:
        x, down = await must("get returns an available item", q.get())
    if k == 2:
        await must("add returns", q.add("x"))
    await must("add_rate_limited returns", q.add_rate_limited("x"))
    await sa.settle()
    sa.check(lim.asked == ["x"], "add_rate_limited asks the limiter once", lim.asked)
    if not k:
        x, down = await must("get returns an available item", q.get())
    await must("done returns", q.done("x"))
    await sa.settle()
    sa.check(len(q) == (1 if k == 2 else 0), "an item never becomes available before its delay")
    if k == 2:
        x, down = await must("get returns an available item", q.get())
        await must("done returns", q.done("x"))
    sa.advance(4)
    await sa.settle()
    sa.check(len(q) == 1, "add_rate_limited schedules the item after the delay its limiter gives", len(q))


async def limiter_wide():
    """Delays over very many doublings, and very many items."""
    base, high = 2.0 ** -130, 1000
    lim = default_rate_limiters.ItemExponentialFailureRateLimiter(base, high)
    want = base
    for n in range(150):
        r = lim.when("x")
        sa.check(r == min(want, high), "the n-th delay is min(base * 2**n, max)", n, r)
        want = want * 2
    lim = default_rate_limiters.ItemExponentialFailureRateLimiter(1, 100)
    many = 1500
    for i in range(many):
        sa.check(lim.when(i) == 1, "the n-th delay is min(base * 2**n, max)", i)
    for i in range(0, many, 7):
        sa.check(lim.num_requeues(i) == 1, "num_requeues counts the calls since the last forget", i)
        sa.check(lim.when(i) == 2, "the n-th delay is min(base * 2**n, max)", i)


# ------------------------------------------------------------------ controller and election
async def reconcile_errors():
    w = ctrl.World(1)
    q = w.q
    await w.started()
    k = sa.choose(KINDS, "error")
    for i in range(3):
        if not q.waiting:
            sa.check(await ctrl.until(lambda: len(q.waiting) > 0), ctrl.ALIVE)
        r = ctrl.request("n%d" % i)
        q.log = []
        q.give(r)
        await sa.settle()
        w.do.gates[0].fut.set_exception(error(k))
        await sa.settle()
        sa.check(ctrl.same_log(q.log, [("limited", r), ("done", r)]), ctrl.NEXT, q.log)
    sa.check(await ctrl.until(lambda: len(q.waiting) > 0), ctrl.ALIVE)
    sa.check(not w.t.done(), ctrl.ALIVE)


async def lock_errors():
    """Whatever the lock raises, the attempt fails and the next one follows."""
    k = sa.choose(KINDS, "error")
    w = elect.World()
    w.go()
    await sa.settle()
    n = 0
    while n < 3:                           # while a candidate: get, create, update
        while not w.lock.get_gate.open():
            sa.check(not w.t.done() and sa.fire(), "the candidate goes on until it leads", n)
            await sa.settle()
        if n == 0:
            fail(w.lock.get_gate, k)
            await sa.settle()
        else:
            if n == 2:
                w.put(None)
            w.lock.get_gate.give((None, None) if n == 1 else (w.rec, w.raw))
            await sa.settle()
            sa.check(w.lock.put_gate.open() and w.lock.how == ("create" if n == 1 else "update"), "the record is written")
            fail(w.lock.put_gate, k)
            await sa.settle()
        sa.check(w.lead.starts == 0 and not w.e.is_leader(), "an attempt that cannot write the record fails", n)
        n += 1
    while not w.lock.get_gate.open():
        sa.check(not w.t.done() and sa.fire(), "the candidate goes on until it leads")
        await sa.settle()
    w.rec = None
    w.lock.get_gate.give((None, None))
    await sa.settle()
    w.lock.put_gate.give(None)
    w.wrote()
    await sa.settle()
    sa.check(w.lead.starts == 1 and w.e.is_leader(), "on_started_leading is started once the lease was acquired")
    for n in range(2):                     # while leading: get, update
        while not w.lock.get_gate.open():
            sa.check(not w.t.done() and sa.fire(), "a leader renews again after each retry period", n)
            await sa.settle()
        if n == 0:
            fail(w.lock.get_gate, k)
        else:
            w.lock.get_gate.give((w.rec, w.raw))
            await sa.settle()
            fail(w.lock.put_gate, k)
        await sa.settle()
        sa.check(not w.t.done() and w.lead.stops == 0 and not w.lead.cancelled, "a leader that renews in time keeps leading", n)
    while not w.lock.get_gate.open():
        sa.check(not w.t.done() and sa.fire(), "a leader renews again after each retry period")
        await sa.settle()
    w.lock.get_gate.give((w.rec, w.raw))
    await sa.settle()
    w.lock.put_gate.give(None)
    w.wrote()
    await sa.settle()
    sa.check(not w.t.done() and w.lead.stops == 0, "a leader that renews in time keeps leading")


# ------------------------------------------------------------------ waiting
async def condition_errors():
    """What a condition raises reaches the caller at once."""
    k = sa.choose(KINDS, "error")
    calls = []

    async def condition():
        calls.append(1)
        if len(calls) == 2:
            raise error(k)
        return False
    j = sa.choose(4, "function")
    if j == 0:
        aw = wait.exponential_backoff(wait.Backoff(steps=5, duration=1, factor=1), condition)
    elif j == 1:
        aw = wait.poll_infinite(2, condition)
    elif j == 2:
        aw = wait.poll_immediate_infinite(2, condition)
    else:
        sa.assume(k != 1)
        aw = wait.poll(2, 100, condition)
    r, e = await must("a condition's exception ends the polling", outcome(aw), 6)
    sa.check(type(e) is type(error(k)), "a condition's exception is propagated", e)
    sa.check(len(calls) == 2, "a condition's exception ends the polling", len(calls))


# ------------------------------------------------------------------ broadcaster without queues
async def rendezvous_pressure():
    """Watchers without a queue: an event is published to one only once it took the one before."""
    b = mux.Broadcaster(0, mux.FullChannelBehavior.WAIT_IF_CHANNEL_FULL)
    w = await must("registration returns", b.watch())
    sent = [muxes.Ev() for _ in range(80)]
    done = []

    async def publish():
        for e in sent:
            await b.action("ADDED", e)
            done.append(e)
    t = asyncio.ensure_future(publish())
    await sa.settle()
    sa.check(not t.done(), "publishing waits when a watcher does not read")
    first = len(done)
    for i in range(80):
        e = await must(muxes.LIVE, w.__anext__())
        sa.check(e["object"] is sent[i], muxes.ORDER)
        await sa.settle()
        sa.check(t.done() or len(done) <= i + 1 + first, "publishing waits when a watcher does not read")
    sa.check(t.done(), "publishing goes on when no watcher holds it back")
    w2 = await must("registration returns", b.watch())
    await must("publishing goes on when no watcher holds it back", b.action("ADDED", sent[0]))
    seen = []

    async def read(x):
        async for e in x:
            seen.append(e["object"])
    ts = [asyncio.ensure_future(read(x)) for x in (w, w2)]
    await sa.settle()
    sa.check(len(seen) == 2, "a watcher receives exactly the events published after its registration, in order", len(seen))
    await must("shutdown returns once everything was delivered", b.shutdown())
    await sa.settle()
    sa.check(all([x.done() for x in ts]), "shutdown ends the iteration of every watcher")
