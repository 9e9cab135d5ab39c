"""Long histories of one course each: many items, keys, watchers or turns, for what only shows once something has grown."""
import asyncio
import sa
from aiok8s.cache import fifo, store
from aiok8s.cache.delta_fifo import DeltaFIFO, DeletedFinalStateUnknown, DeltaType
from aiok8s.cache import reflector
from aiok8s.util import clock, wait
from aiok8s.watch import mux
from aiok8s.workqueue import default_rate_limiters, delaying_queue, queue
from specs.common import *
from specs import ctrl, elect, reflect
from specs.reflect import Boom, Listing, Thing

MANY = 150


# ------------------------------------------------------------------ work queues
async def drained(q, want, label):
    got = []
    while len(q):
        x, down = await must("get returns an available item", q.get())
        sa.check(not down, "waiting items are handed out before the shutdown marker")
        got.append(x)
        await must("done returns", q.done(x))
    sa.check(got == want, label, got)


async def queue_many(q):
    FIRST = "items are handed out in the order they became ready"
    items = [(i if i % 2 else str(i)) for i in range(MANY)]
    for i in items + items:
        await must("add returns", q.add(i))
    sa.check(len(q) == MANY, "len counts the waiting items", len(q))
    got = []
    for _ in items:
        x, down = await must("get returns an available item", q.get())
        sa.check(not down, "the shutdown marker is returned only after shut_down")
        got.append(x)
    sa.check(got == items, FIRST, got)
    sa.check(len(q) == 0, "len counts the waiting items", len(q))
    for i in items[::3]:
        await must("add returns", q.add(i))
    sa.check(len(q) == 0, "an item is not handed out while another worker processes it", len(q))
    back = []
    for i in items[::-1]:
        await must("done returns", q.done(i))
        if i in items[::3]:
            back.append(i)
    sa.check(len(q) == len(back), "an item added while it was processed is handed out again", len(q))
    await drained(q, back, FIRST)
    for i in range(MANY):
        await must("add returns", q.add(i))
        x, down = await must("get returns an available item", q.get())
        sa.check(x == i and not down, FIRST, x)
        await must("done returns", q.done(x))
    for i in items:
        await must("add returns", q.add(i))
    sd = asyncio.ensure_future(q.shut_down())
    await sa.settle()
    await drained(q, items, FIRST)
    await must("shut_down returns", sd)
    x, down = await must("get returns after the shutdown", q.get())
    sa.check(down, "get tells of the shutdown once nothing is left")


async def queue_plain():
    await queue_many(queue.new())


async def queue_delaying():
    await queue_many(delaying_queue._DelayingType(VClock()))


async def queue_waiters():
    """Many getters wait before the items come; every item goes to one of them."""
    q = queue.new()
    gets = [asyncio.ensure_future(q.get()) for _ in range(40)]
    await sa.settle()
    for i in range(40):
        await must("add returns", q.add(i))
    await sa.settle()
    got = []
    for g in gets:
        sa.check(g.done() and not g.result()[1], "a waiting item goes to a waiting getter")
        got.append(g.result()[0])
    sa.check(sorted(got) == list(range(40)), "each item is handed to one worker", got)
    gets = [asyncio.ensure_future(q.get()) for _ in range(40)]
    await sa.settle()
    await must("shut_down returns", q.shut_down())
    await sa.settle()
    for g in gets:
        sa.check(g.done() and g.result()[1], "every blocked get returns at shutdown")


async def delays_many():
    """Many pending delays, many of them shortened, some of them given again with a longer delay."""
    c = VClock()
    q = delaying_queue._DelayingType(c)
    start = sa.now()
    n = 90
    due = {}
    for i in range(n):
        d = (i * 37) % 97 + 1
        await must("add_after returns", q.add_after("i%d" % i, d))
        due["i%d" % i] = d
    for i in range(0, n, 4):
        d = (i * 53) % 89 + 2
        await must("add_after returns", q.add_after("i%d" % i, d))
        due["i%d" % i] = min(d, due["i%d" % i])
    await sa.settle()
    last = 0
    for at in sorted(set(due.values())):
        sa.advance(at - last)
        last = at
        await sa.settle()
        ready = []
        while len(q):
            x, down = await must("get returns an available item", q.get())
            await must("done returns", q.done(x))
            sa.check(x in due and x not in ready, "an item becomes available once per addition", x)
            sa.check(due[x] <= at, "an item never becomes available before its delay", x)
            ready.append(x)
        want = [x for x in due if due[x] == at]
        sa.check(sorted(ready) == sorted(want), "an item becomes available as soon as the clock passes its delay", at, ready, want)
        for x in ready:
            due.pop(x, None)
    sa.check(not due, "an item becomes available as soon as the clock passes its delay")
    sa.check(len(sa.crashes()) == 0, "no operation of the queue fails", sa.crashes())


async def limiter_many():
    """Many items in one limiter; each keeps its own count."""
    lim = default_rate_limiters.ItemExponentialFailureRateLimiter(1, 100)
    for n in range(9):
        for i in range(MANY):
            if n <= i % 8:
                r = lim.when(i)
                sa.check(r == min(2 ** n, 100), "the n-th delay is min(base * 2**n, max)", i, n, r)
    for i in range(MANY):
        sa.check(lim.num_requeues(i) == i % 8 + 1, "num_requeues counts the calls since the last forget", i)
    for i in range(0, MANY, 2):
        lim.forget(i)
    for i in range(MANY):
        sa.check(lim.num_requeues(i) == (i % 8 + 1 if i % 2 else 0), "forget resets the item", i)


# ------------------------------------------------------------------ stores
class Row(Falsy):
    def __init__(self, key, group):
        self.key = key
        self.group = group


def groups(o):
    return [o.group, "all"] if o.group else []


async def stores_many():
    FIND = "by_index and index return exactly the matching stored objects, each once"
    s = store.new_indexer(lambda o: o.key, {"g": groups})
    now = {}

    async def right():
        sa.check({o.key: o for o in s.list()} == now and len(s.list()) == len(now), "get, get_by_key, list and list_keys show exactly the last object stored per key")
        sa.check(sorted(s.list_keys()) == sorted(now), "get, get_by_key, list and list_keys show exactly the last object stored per key")
        for k in now:
            sa.check(s.get_by_key(k) is now[k], "get, get_by_key, list and list_keys show exactly the last object stored per key")
        for g in ("a", "b", "c", "d", "all"):
            want = sorted([k for k in now if g in groups(now[k])])
            sa.check(sorted([o.key for o in await s.by_index("g", g)]) == want, FIND, g)
            sa.check(sorted(await s.index_keys("g", g)) == want, "index_keys returns exactly the keys of the matching stored objects", g)
        used = set([g for o in now.values() for g in groups(o)])
        sa.check(sorted(await s.list_index_func_values("g")) == sorted(used), "list_index_func_values returns exactly the values in use")
    for i in range(MANY):
        o = Row("k%d" % i, "abc"[i % 3])
        now[o.key] = o
        await s.add(o)
    await right()
    for i in range(0, MANY, 2):
        o = Row("k%d" % i, ("d", "a", None)[i % 3])
        now[o.key] = o
        await s.update(o)
    await right()
    for i in range(0, MANY, 3):
        await s.delete(now.pop("k%d" % i))
    await right()
    l = [Row("k%d" % i, "bcd"[i % 3]) for i in range(20, MANY + 20)]
    now = {o.key: o for o in l}
    await s.replace(l, "1")
    await right()


async def fifo_many():
    """Many keys pending, some removed and added again."""
    q = fifo.FIFO(lambda o: o.key)
    now = {}
    order = []
    for i in range(MANY):
        o = Row("k%d" % i, None)
        now[o.key] = o
        order.append(o.key)
        await must("add returns", q.add(o))
    for i in range(0, MANY, 2):
        o = Row("k%d" % i, None)
        now[o.key] = o
        await must("update returns", q.update(o))
    for i in range(0, MANY, 5):
        await must("delete returns", q.delete(Row("k%d" % i, None)))
        now.pop("k%d" % i)
        order.remove("k%d" % i)
    sa.check(sorted(q.list_keys()) == sorted(now), "the queue lists exactly the pending objects")
    got = []

    def take(o):
        sa.check(o.key in now, "deleted objects are not handed out", o.key)
        sa.check(o is now.pop(o.key), "pop hands out the latest object of the key", o.key)
        got.append(o.key)
    while now:
        await must("pop returns when an object is pending", q.pop(take))
    sa.check(got == order, "objects are handed out in the order they became pending", got)
    sa.check(not q.list(), "the queue lists exactly the pending objects")


async def deltas_many():
    """Many keys with many changes each; a list that lacks some of them."""
    EXACT = "pop hands out every change of the key since its last pop, in order, each with its own object"
    known = store.new_store(lambda o: o.key)
    q = DeltaFIFO(lambda o: o.key, known_objects=known)
    want = {}
    for n in range(7):
        for i in range(60):
            if n <= i % 7:
                o = Row("k%d" % i, None)
                t = DeltaType.ADDED if n == 0 else DeltaType.UPDATED
                await must("add returns", q.add(o) if n == 0 else q.update(o))
                want.setdefault(o.key, []).append((t, o))
    order = list(want)
    got = []

    async def take(ds):
        k = ds[0].object.key
        w = want.pop(k)
        got.append(k)
        sa.check([d.type for d in ds] == [t for t, _ in w] and all([ds[j].object is w[j][1] for j in range(len(w))]), EXACT, k)
        await known.add(ds[-1].object)
    for _ in range(60):
        await must("pop returns when a change is pending", q.pop(take))
    sa.check(got == order, "keys are handed out in the order they became pending", got)
    sa.check(not q.list_keys(), EXACT)
    # a list with every second of them and some new ones
    l = [Row("k%d" % i, None) for i in range(0, 80, 2)]
    old = {o.key: o for o in known.list()}
    await must("replace returns", q.replace(l, "1"))
    gone = []

    async def second(ds):
        sa.check(len(ds) == 1, EXACT, len(ds))
        d = ds[0].object
        if isinstance(d, DeletedFinalStateUnknown):
            sa.check(ds[0].type is DeltaType.DELETED and d.obj is old[d.key], "an object missing from the list is deleted with its last known state", d.key)
            gone.append(d.key)
        else:
            sa.check(ds[0].type is not DeltaType.DELETED and d is l.pop(0), "every listed object gives one change", d.key)
    for _ in range(70):
        await must("pop returns when a change is pending", q.pop(second))
    sa.check(sorted(gone) == sorted([k for k in old if int(k[1:]) % 2]), "an object missing from the list is deleted with its last known state", gone)
    sa.check(not l and not q.list_keys(), "every listed object gives one change")


async def deltas_deep():
    """Very many changes of one key, alternating with deletions."""
    q = DeltaFIFO(lambda o: o.key)
    want = []
    for i in range(MANY):
        o = Row("k", None)
        if i % 5 == 4:
            await must("delete returns", q.delete(o))
            want.append((DeltaType.DELETED, o))
        else:
            await must("add returns", q.add(o) if i % 2 else q.update(o))
            want.append((DeltaType.ADDED if i % 2 else DeltaType.UPDATED, o))

    async def take(ds):
        sa.check(len(ds) == len(want) and all([ds[j].type is want[j][0] and ds[j].object is want[j][1] for j in range(len(ds))]),
                 "pop hands out every change of the key since its last pop, in order, each with its own object", len(ds))
    await must("pop returns when a change is pending", q.pop(take))


# ------------------------------------------------------------------ watch
async def watchers(many, events):
    b = mux.Broadcaster(0, mux.FullChannelBehavior.WAIT_IF_CHANNEL_FULL)
    got = []
    ts = []

    async def read(w, seen):
        async for e in w:
            seen.append(e)
    for _ in range(many):
        w = await b.watch()
        got.append([])
        ts.append(asyncio.ensure_future(read(w, got[-1])))
    sent = []
    for i in range(events):
        sent.append(Falsy())
        await must("publishing goes on when no watcher holds it back", b.action("T%d" % (i % 3), sent[-1]))
    await must("shutdown returns once everything was delivered", b.shutdown())
    await sa.settle()
    for t in ts:
        sa.check(t.done() and t.exception() is None, "shutdown ends the iteration of every watcher")
    for seen in got:
        sa.check(len(seen) == events and all([seen[i]["object"] is sent[i] and seen[i]["type"] == "T%d" % (i % 3) for i in range(len(seen))]),
                 "a watcher receives exactly the events published after its registration, in order", len(seen))


async def watchers_many():
    await watchers(100, 3)


async def events_many():
    await watchers(2, MANY)


async def drops_many():
    """A watcher that never reads, in dropping mode: the oldest events that fit are kept; others get them all."""
    b = mux.Broadcaster(MANY, mux.FullChannelBehavior.DROP_IF_CHANNEL_FULL)
    idle = await b.watch()
    w = await b.watch()
    sent = []
    for i in range(MANY + 20):
        sent.append(Falsy())
        await must("publishing never waits for a watcher in dropping mode", b.action("ADDED", sent[-1]))
        await sa.settle()
        e = await must("an event reaches every watcher that asks for it", w.__anext__())
        sa.check(e["object"] is sent[-1], "a watcher receives exactly the events published after its registration, in order")
    await must("shutdown returns once everything was delivered", b.shutdown())
    seen = []

    async def rest():
        async for e in idle:
            seen.append(e["object"])
    await must("shutdown ends the iteration of every watcher", rest())
    sa.check(len(seen) >= MANY and all([seen[i] is sent[i] for i in range(MANY)]), "an event is dropped only for a watcher whose queue is full", len(seen))


# ------------------------------------------------------------------ reflector
async def reflect_many():
    env = reflect.Env()
    r = reflector.Reflector(env, Thing, env, 0)
    t = asyncio.ensure_future(r.list_and_watch())
    await sa.settle()
    items = [Thing(str(i)) for i in range(MANY)]
    env.list_gate.give(Listing("L", items))
    await sa.settle()
    sa.check(reflect.same_log(env.log, [("replace", items, "L")]), reflect.LISTED)
    env.watch_gate.give(None)
    await sa.settle()
    for again in range(3):
        env.log = []
        want = []
        evs = []
        for i in range(MANY):
            k = (i * 7 + again) % 4
            e, calls, new = reflect.make_event(k, "v%d-%d" % (again, i))
            evs.append(e)
            want.extend(calls)
        env.stream.backlog = evs[1:]
        env.event.give(evs[0])
        await sa.settle()
        sa.check(reflect.same_log(env.log, want), reflect.STREAMED, len(env.log))
        sa.check(r.last_sync_resource_version() == "v%d-%d" % (again, MANY - 1), reflect.VERSION)
        sa.check(not t.done() and env.event.open(), "the watch goes on after every event")
        env.event.give(None)
        await sa.settle()
        sa.check(env.watch_gate.open() and env.asked == r.last_sync_resource_version(), "a watch that ends normally is re-opened without a list")
        env.watch_gate.give(None)
        await sa.settle()


# ------------------------------------------------------------------ controller
async def work_many():
    """Several workers, many requests, every outcome in turn."""
    w = ctrl.World(5)
    q = w.q
    await w.started()
    d = 3
    sa.check(len(q.waiting) == 5, "as many workers as configured", len(q.waiting))
    for i in range(60):
        if not q.waiting:
            sa.check(await ctrl.until(lambda: len(q.waiting) > 0), ctrl.ALIVE)
        r = ctrl.request("n%d" % i)
        q.log = []
        w.do.asked = []
        q.give(r)
        await sa.settle()
        sa.check(len(w.do.asked) == 1 and w.do.asked[0] is r, "a request is reconciled once", w.do.asked)
        if i % 5 == 4:
            for j in range(5):
                q.log = []
                r = q.taken[0]
                k = (i // 5 + j) % 5
                ctrl.give_outcome(w.do.gates[0], k, d)
                await sa.settle()
                sa.check(ctrl.same_log(q.log, ctrl.outcome_of(k, r, d) + [("done", r)]), ctrl.NEXT, k, q.log)
    sa.check(not w.t.done(), ctrl.ALIVE)


# ------------------------------------------------------------------ clocks
async def clock_many():
    c = clock.FakeClock(1000)
    ts = []
    for i in range(60):
        at = (i * 37) % 61 + 1
        t = c.new_timer(at)
        ts.append([at, t, i % 4 == 3])
    for x in ts:
        if x[2]:
            sa.check(x[1].stop(), "stop says whether the timer was pending")
    for now in range(1, 63):
        await must("step returns", c.step(1))
        for at, t, off in ts:
            sa.check(t.c().qsize() == (1 if at == now and not off else 0), "a timer fires only once, at its time, and never when stopped", at, now)
            if t.c().qsize():
                sa.check(t.c().get_nowait() == 1000 + now, "the timer delivers the time")
    sa.check(not c.has_waiters(), "has_waiters tells of pending timers")


async def ticker_many():
    """A real ticker whose ticks are taken: very many of them, one period apart."""
    c = clock.RealClock()
    t = c.new_ticker(3)
    last = sa.now()
    await sa.settle()
    for i in range(MANY):
        sa.check(sa.fire(), "a ticker ticks repeatedly, also without a reader", i)
        await sa.settle()
        sa.check(sa.entail(sa.now() - last, "==", 3), "ticks are one period apart", i)
        last = sa.now()
        sa.check(t.c().qsize() == 1, "a ticker ticks repeatedly, also without a reader", i)
        if i % 3:
            t.c().get_nowait()
        else:
            sa.fire()
            await sa.settle()
            last = sa.now()
            t.c().get_nowait()
    t.stop()
    await sa.settle()
    sa.check(t.c().empty() and sa.timers() == 0, "a stopped ticker is silent")


# ------------------------------------------------------------------ waiting
async def loop_many():
    """Very many rounds of every kind of loop."""
    calls = [0]

    async def f():
        calls[0] += 1
    ev = asyncio.Event()
    k = sa.choose(3, "loop")
    t = asyncio.ensure_future(wait.loop(f, 2) if k == 0 else wait.until(f, 2, ev) if k == 1 else wait.jitter_until(f, 2, 0, False, ev))
    await sa.settle()
    start = sa.now()
    for i in range(MANY):
        sa.check(calls[0] == i + 1, "the function is called once per period", i, calls[0])
        sa.check(not t.done() and sa.fire(), "the loop goes on until it is stopped", i)
        await sa.settle()
        sa.check(sa.entail(sa.now() - start, "==", 2 * (i + 1)), "the function is called once per period", i)
    ev.set()
    await sa.settle()
    sa.check(k == 0 or t.done() and t.exception() is None, "waiting stops as soon as the stop event is set")


async def poll_many():
    """A condition that becomes true only after very many calls."""
    calls = []

    async def condition():
        calls.append(sa.now())
        return len(calls) == MANY
    start = sa.now()
    k = sa.choose(4, "function")
    aw = (wait.poll(2, 10000, condition) if k == 0 else wait.poll_immediate(2, 10000, condition) if k == 1 else
          wait.poll_infinite(2, condition) if k == 2 else wait.poll_immediate_infinite(2, condition))
    r, e = await must("polling ends when the condition is true", outcome(aw), MANY + 5)
    sa.check(e is None and len(calls) == MANY, "polling ends when the condition is true", e)
    off = 0 if k % 2 else 1
    sa.check(all([sa.entail(calls[i] - start, "==", 2 * (i + off)) for i in range(len(calls))]), "a condition is polled once per interval")


async def backoff_many():
    calls = []

    async def condition():
        calls.append(sa.now())
        return False
    even = sa.flag("even")
    n = MANY if even else 40
    b = wait.Backoff(steps=n, duration=1, factor=1 if even else 2)
    start = sa.now()
    r, e = await must("exponential_backoff ends", outcome(wait.exponential_backoff(b, condition)), MANY + 5)
    sa.check(isinstance(e, wait.WaitTimeoutError), "WaitTimeoutError after the last false attempt", e)
    sa.check(len(calls) == n, "every step makes an attempt", len(calls))
    at = 0
    for i in range(n):
        sa.check(sa.entail(calls[i] - start, "==", at), "attempts are spaced by the backoff duration", i)
        at += 1 if even else 2 ** i


# ------------------------------------------------------------------ leader election
async def leader_many():
    """A leader that renews very many times, with an answer that is missed now and then."""
    w = elect.World()
    w.go()
    await sa.settle()
    w.lock.get_gate.give((None, None))
    await sa.settle()
    w.lock.put_gate.give(None)
    w.wrote()
    await sa.settle()
    sa.check(w.e.is_leader() and w.lead.starts == 1, "on_started_leading is started once the lease was acquired")
    for i in range(60):
        if i % 7 == 5:                     # one attempt fails
            while not w.lock.get_gate.open():
                sa.check(sa.fire(), "a leader renews again after each retry period")
                await sa.settle()
            w.lock.get_gate.fail()
            await sa.settle()
        while not w.lock.get_gate.open():
            sa.check(not w.t.done() and sa.fire(), "a leader renews again after each retry period", i)
            await sa.settle()
        start = w.lock.asked_at
        w.lock.get_gate.give((w.rec, w.raw))
        await sa.settle()
        sa.check(w.lock.put_gate.open(), "the record is written", i)
        w.right_record(start)
        w.lock.put_gate.give(None)
        w.wrote()
        await sa.settle()
        sa.check(not w.t.done() and w.e.is_leader() and w.lead.stops == 0 and not w.lead.cancelled, "a leader that renews in time keeps leading", i)
    sa.check(w.lead.reports == [elect.ME], "on_new_leader is called only when the observed holder changes", w.lead.reports)


async def candidate_many():
    """The holder renews very many times; then it stops, and the lease is taken once it has expired."""
    w = elect.World()
    w.go()
    for i in range(60):
        while not w.lock.get_gate.open():
            await sa.settle()
            if not w.lock.get_gate.open():
                sa.check(not w.t.done() and sa.fire(), "the candidate goes on until it leads", i)
        w.put("1")
        w.seen = sa.now()
        w.holder = "1"
        w.lock.get_gate.give((w.rec, w.raw))
        await sa.settle()
        sa.check(w.lock.written is None, elect.SAFE, i)
    while True:
        while not w.lock.get_gate.open():
            await sa.settle()
            if not w.lock.get_gate.open():
                sa.check(not w.t.done() and sa.fire(), "the candidate goes on until it leads")
        w.lock.get_gate.give((w.rec, w.raw))
        await sa.settle()
        if w.lock.written is not None:
            break
        sa.check(sa.entail(sa.now() - w.seen, "<=", elect.LEASE + 2 * elect.RETRY), "an expired lease is taken")
    sa.check(sa.entail(sa.now() - w.seen, ">=", elect.LEASE), elect.SAFE, sa.now() - w.seen)
    w.lock.put_gate.give(None)
    await sa.settle()
    sa.check(w.lead.starts == 1 and w.e.is_leader(), "on_started_leading is started once the lease was acquired")


# ------------------------------------------------------------------ reflector's resyncs
async def resync_many():
    env = reflect.Env()
    r = reflector.Reflector(env, Thing, env, 5)
    t = asyncio.ensure_future(r.list_and_watch())
    await sa.settle()
    env.list_gate.give(Listing("L", []))
    await sa.settle()
    env.watch_gate.give(None)
    await sa.settle()
    start = sa.now()
    for i in range(40):
        sa.check(env.resyncs == i, "one resync per period", i, env.resyncs)
        while env.resyncs == i:
            sa.check(not t.done() and sa.fire(), "resyncs go on while the watch does", i)
            await sa.settle()
        sa.check(sa.entail(sa.now() - start, ">=", 5 * (i + 1)), "one resync per period", i)
        env.event.give({"type": "ADDED", "object": Thing(str(i))})
        await sa.settle()
    sa.check(not t.done(), "the watch goes on after every event")


async def relist_many():
    """Many watches that end by themselves, then many lists and watches that fail."""
    env = reflect.Env()
    r = reflector.Reflector(env, Thing, env, 0)
    t = asyncio.ensure_future(r.run())
    await sa.settle()
    for i in range(60):
        while not env.list_gate.open():
            sa.check(not t.done() and sa.fire(), "the reflector lists again after a pause", i)
            await sa.settle()
        if i % 4 == 3:
            env.list_gate.fail()
            await sa.settle()
            continue
        env.log = []
        o = Thing("o%d" % i)
        env.list_gate.give(Listing("L%d" % i, [o]))
        await sa.settle()
        sa.check(reflect.same_log(env.log, [("replace", [o], "L%d" % i)]), reflect.LISTED)
        for _ in range(3):
            sa.check(env.watch_gate.open(), "the list is followed by a watch")
            env.watch_gate.give(None)
            await sa.settle()
            env.stream.backlog = [None]
            env.event.give({"type": "BOOKMARK", "object": Thing("b%d" % i)})
            await sa.settle()
            sa.check(r.last_sync_resource_version() == "b%d" % i, reflect.VERSION)
        sa.check(env.watch_gate.open(), "the list is followed by a watch")
        if i % 3 == 1:
            env.watch_gate.fail()
            await sa.settle()
        else:
            env.watch_gate.give(None)
            await sa.settle()
            env.event.give("boom")
            await sa.settle()
    sa.check(not t.done() and env.opened == 0, "the reflector goes on")


# ------------------------------------------------------------------ beyond a thousand
THOUSANDS = 1100


async def limiter_thousands():
    lim = default_rate_limiters.ItemExponentialFailureRateLimiter(1, 100)
    for i in range(THOUSANDS):
        lim.when(i)
    for i in range(0, THOUSANDS, 100):
        lim.forget(i)
    for i in range(THOUSANDS):
        n = 1 if i % 100 else 0
        if i % 7 == 0 or n == 0:
            sa.check(lim.num_requeues(i) == n, "num_requeues counts the calls since the last forget", i)
            sa.check(lim.when(i) == 2 ** n, "the n-th delay is min(base * 2**n, max)", i)


async def queue_thousands():
    q = queue.Type(VClock())
    items = list(range(THOUSANDS))
    for i in items:
        await must("add returns", q.add(i))
    got = []
    for _ in items:
        x, down = await must("get returns an available item", q.get())
        sa.check(not down, "the shutdown marker is returned only after shut_down")
        got.append(x)
    sa.check(got == items, "items are handed out in the order they became ready", got)
    for i in items[::50]:
        await must("add returns", q.add(i))
    sa.check(len(q) == 0, "an item is not handed out while another worker processes it", len(q))
    for i in items:
        await must("done returns", q.done(i))
    await drained(q, items[::50], "items are handed out in the order they became ready")


async def stores_thousands():
    s = store.new_indexer(lambda o: o.key, {"g": groups})
    rows = [Row("k%d" % i, "abc"[i % 3]) for i in range(THOUSANDS)]
    for o in rows:
        await s.add(o)
    sa.check([o for o in s.list()] == rows, "get, get_by_key, list and list_keys show exactly the last object stored per key")
    sa.check(sorted([o.key for o in await s.by_index("g", "a")]) == sorted([o.key for o in rows[::3]]), "by_index and index return exactly the matching stored objects, each once")
    for o in rows[::2]:
        await s.delete(o)
    sa.check([o for o in s.list()] == rows[1::2], "get, get_by_key, list and list_keys show exactly the last object stored per key")
    await s.replace(rows, "1")
    sa.check([o for o in s.list()] == rows, "get, get_by_key, list and list_keys show exactly the last object stored per key")
    sa.check(len(await s.by_index("g", "all")) == THOUSANDS, "by_index and index return exactly the matching stored objects, each once")


async def fifo_thousands():
    q = fifo.FIFO(lambda o: o.key)
    rows = [Row("k%d" % i, None) for i in range(THOUSANDS)]
    await must("replace returns", q.replace(rows[:1050], "1"))
    for o in rows[1050:]:
        await must("add returns", q.add(o))
    sa.check(not q.has_synced(), "has_synced is false until the first list was popped")
    got = []
    for i in range(THOUSANDS):
        await must("pop returns when an object is pending", q.pop(got.append))
        if i in (0, 1000, 1048):
            sa.check(not q.has_synced(), "has_synced is false until the first list was popped", i)
    sa.check(q.has_synced(), "has_synced is true once the first list was popped")
    sa.check(len(got) == len(rows) and all([got[i] is rows[i] for i in range(len(rows))]), "objects are handed out in the order they became pending")


async def deltas_thousands():
    EXACT = "pop hands out every change of the key since its last pop, in order, each with its own object"
    q = DeltaFIFO(lambda o: o.key)
    rows = [Row("k%d" % i, None) for i in range(THOUSANDS)]
    await must("replace returns", q.replace(rows[:1050], "1"))
    for o in rows[1050:]:
        await must("add returns", q.add(o))
    got = []

    async def take(ds):
        sa.check(len(ds) == 1, EXACT, len(ds))
        got.append(ds[0].object)
    for i in range(THOUSANDS):
        await must("pop returns when a change is pending", q.pop(take))
        if i in (0, 1000, 1048):
            sa.check(not q.has_synced(), "has_synced is false until the first list was processed", i)
    sa.check(q.has_synced(), "has_synced is true once the first list was processed")
    sa.check(len(got) == len(rows) and all([got[i] is rows[i] for i in range(len(rows))]), "keys are handed out in the order they became pending")


async def delays_thousands():
    c = VClock()
    q = delaying_queue._DelayingType(c)
    for i in range(THOUSANDS):
        await must("add_after returns", q.add_after(i, 5 + i % 3))
    await sa.settle()
    sa.check(len(q) == 0, "an item never becomes available before its delay", len(q))
    for n in range(3):
        sa.advance(5 if n == 0 else 1)
        await sa.settle()
        ready = len([i for i in range(THOUSANDS) if i % 3 <= n])
        sa.check(len(q) == ready, "an item becomes available as soon as the clock passes its delay", n, len(q))
    await drained(q, [i for n in range(3) for i in range(THOUSANDS) if i % 3 == n], "items are handed out in the order they became ready")
    sa.check(len(sa.crashes()) == 0, "no operation of the queue fails", sa.crashes())


async def events_thousands():
    await watchers(2, THOUSANDS)


async def reflect_thousands():
    """A list and a single watch of more than a thousand objects each."""
    env = reflect.Env()
    r = reflector.Reflector(env, Thing, env, 0)
    t = asyncio.ensure_future(r.list_and_watch())
    await sa.settle()
    items = [Thing(str(i)) for i in range(THOUSANDS)]
    env.list_gate.give(Listing("L", items))
    await sa.settle()
    sa.check(reflect.same_log(env.log, [("replace", items, "L")]), reflect.LISTED)
    env.watch_gate.give(None)
    await sa.settle()
    env.log = []
    want = []
    evs = []
    for i in range(THOUSANDS):
        e, calls, new = reflect.make_event(i % 4, "v%d" % i)
        evs.append(e)
        want.extend(calls)
    env.stream.backlog = evs[1:]
    env.event.give(evs[0])
    await sa.settle()
    sa.check(reflect.same_log(env.log, want), reflect.STREAMED, len(env.log))
    sa.check(r.last_sync_resource_version() == "v%d" % (THOUSANDS - 1), reflect.VERSION)
    sa.check(not t.done() and env.event.open(), "the watch goes on after every event")
