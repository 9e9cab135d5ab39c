"""Drivers for the work queues: most general clients with an executable specification."""
import asyncio
import sa
from aiok8s.workqueue import queue, delaying_queue, rate_limiting_queue, default_rate_limiters
from specs.common import *


class Key:
    """An item compared by value, of which every use is another instance, and which is false in a condition."""

    def __init__(self, name):
        self.name = name

    def __eq__(self, other):
        return isinstance(other, Key) and self.name == other.name

    def __hash__(self):
        return hash(self.name)

    def __bool__(self):
        return False


def token(name):
    return Key(name[1:]) if name[0] == "=" else sa.tok(name)


def again(t):
    """The same item: another instance where items are compared by value."""
    return Key(t.name) if isinstance(t, Key) else t


class Item:
    """Specification state of one distinguished item."""

    def __init__(self, tok):
        self.tok = tok
        self.need = "no"            # no | may | must : an addition not yet answered by a hand-out
        self.busy = False           # handed out, done not yet called
        self.closing = False        # done called, not yet returned
        self.adding = []            # additions in progress: [answered?]

    def val(self):
        return again(self.tok)


class Client:
    def __init__(self, q, names=("a", "b"), getters=2, cancel=False):
        self.q = q
        self.items = [Item(token(n)) for n in names]
        self.maxget = getters
        self.gets = []
        self.shut = "no"            # no | started | done
        self.cancel = cancel
        self.started = 0

    def find(self, tok):
        for i in self.items:
            if i.tok == tok:
                return i
        sa.fail("get returns only items that were added")

    async def do_add(self, it):
        me = [False]
        it.adding.append(me)
        late = self.shut == "done"
        await self.q.add(it.val())
        it.adding.remove(me)
        if not me[0] and not late:
            if self.shut == "no":
                it.need = "must"
            elif it.need == "no":
                it.need = "may"

    async def do_get(self):
        alone = [i for i in self.items if i.need == "must" and not i.busy and not i.closing]
        if len([g for g in self.gets if not g.done()]) != 1:
            alone = []
        self.started += 1
        me = self.started
        try:
            item, down = await self.q.get()
        except asyncio.CancelledError:
            if self.cancel:
                return
            raise
        if down:
            sa.check(self.shut != "no", "the shutdown marker is returned only after shut_down")
            if me == self.started:
                for i in alone:
                    sa.check(i.need != "must", "waiting items are handed out before the shutdown marker")
            return
        it = self.find(item)
        sa.check(not it.busy, "an item is not handed out while another worker processes it")
        ok = it.need != "no"
        for a in it.adding:
            ok = ok or not a[0]
        sa.check(ok, "an item is handed out once per addition")
        it.busy = True
        it.need = "no"
        for a in it.adding:
            a[0] = True

    async def do_done(self, it):
        await self.q.done(it.val())
        it.closing = False

    async def do_shut(self):
        if self.shut == "no":
            self.shut = "started"
        await self.q.shut_down()
        self.shut = "done"

    def step(self, tasks, shut, acts):
        """One nondeterministic client action; returns False for 'settle'."""
        k = sa.choose(5 if shut else 4, "client action")
        if k == 0:
            return False
        if k == 1:
            it = self.items[sa.choose(len(self.items), "item to add")]
            sa.assume(len(it.adding) == 0)
            tasks.append(asyncio.ensure_future(self.do_add(it)))
        elif k == 2:
            sa.assume(len(self.gets) < self.maxget)
            t = asyncio.ensure_future(self.do_get())
            tasks.append(t)
            self.gets.append(t)
        elif k == 3:
            n = sa.choose(len(self.items) + (1 if self.cancel else 0), "item done / cancel")
            if n == len(self.items):
                sa.assume(len(self.gets) > 0 and not self.gets[0].done())
                self.gets[0].cancel()
            else:
                it = self.items[n]
                sa.assume(it.busy)
                it.busy = False
                it.closing = True
                tasks.append(asyncio.ensure_future(self.do_done(it)))
        else:
            sa.assume(self.shut != "started")
            tasks.append(asyncio.ensure_future(self.do_shut()))
        return True

    def quiet(self, tasks):
        """Checks at a point where nothing can run any more."""
        sa.check(len(sa.crashes()) == 0, "no operation of the queue fails", sa.crashes())
        self.gets = [g for g in self.gets if not g.done()]
        for t in tasks:
            if t not in self.gets:
                sa.check(t.done(), "add, done and shut_down complete")
        waiting = 0
        maybe = 0
        for i in self.items:
            if not i.busy:
                if i.need == "must":
                    waiting += 1
                elif i.need == "may":
                    maybe += 1
        if self.gets:
            sa.check(waiting == 0, "no worker stays blocked while an item is waiting")
            sa.check(self.shut != "done", "no worker stays blocked after shutdown")
        n = len(self.q)
        sa.check(n >= waiting, "no waiting item is lost from the queue")
        sa.check(n <= waiting + maybe, "len counts every waiting item once")
        if self.shut == "done":
            for i in self.items:
                # what is still undecided is decided now
                if i.need == "may":
                    sa.check(n == waiting or n == waiting + maybe or maybe > 1, "len counts every waiting item once")
        sa.check(self.q.shutting_down() == (self.shut != "no"), "shutting_down reports the shutdown")
        self.started = 0


async def run(c, shut, burst=3):
    """Endless client: bursts of concurrently started operations between quiet points."""
    while True:
        await sa.point()
        tasks = []
        n = 0
        while n < burst and c.step(tasks, shut, n):
            n += 1
            await sa.point()
            if n < burst and sa.flag("let the loop run one round"):
                await asyncio.sleep(0)
        await sa.settle()
        c.quiet(tasks + c.gets)


async def q01():
    await run(Client(queue.new()), False, 2)


async def q01_equal():
    """Items are told apart by value, not by identity or truth."""
    await run(Client(queue.new(), ("=a", "=b")), False, 2)


async def q02():
    await run(Client(queue.new()), False, 3)


async def q02_cancel():
    await run(Client(queue.new(), ("a",), 2, True), False, 3)


async def q03():
    await run(Client(queue.new()), True, 2)


# ------------------------------------------------------------------ shutdown of the derived queues
class DelayClient(Client):
    def step(self, tasks, shut, acts):
        k = sa.choose(3, "kind of addition")
        if k == 0:
            return super().step(tasks, shut, acts)
        it = self.items[sa.choose(len(self.items), "item to add later")]
        sa.assume(len(it.adding) == 0)
        if k == 1:
            tasks.append(asyncio.ensure_future(self.do_add_after(it, sa.pick(0, -1))))
        else:
            sa.assume(self.shut == "done")
            tasks.append(asyncio.ensure_future(self.late(it)))
        return True

    async def do_add_after(self, it, d):
        me = [False]
        it.adding.append(me)
        late = self.shut == "done"
        await self.q.add_after(it.val(), d)
        it.adding.remove(me)
        if not me[0] and not late:
            if self.shut == "no":
                it.need = "must"
            elif it.need == "no":
                it.need = "may"

    async def late(self, it):
        """Additions of every kind after shutdown return and have no effect."""
        if sa.flag("rate limited"):
            if hasattr(self.q, "add_rate_limited"):
                await self.q.add_rate_limited(it.val())
        else:
            await self.q.add_after(it.val(), 1)


class ZeroLimiter:
    def when(self, item):
        return sa.pick(0, 1)

    def forget(self, item):
        pass

    def num_requeues(self, item):
        return 0


async def q03_delaying():
    q = delaying_queue._DelayingType(VClock())
    await run(DelayClient(q, ("a",), 1), True, 2)


async def q03_rate():
    q = rate_limiting_queue._RateLimitingType(ZeroLimiter(), VClock())
    await run(DelayClient(q, ("a",), 1), True, 2)


async def shut_ends(q, real):
    """A single shut_down ends the background work, releases getters and ignores pending delays."""
    a = sa.tok("a")
    getter = asyncio.ensure_future(q.get())
    pending = sa.choose(3, "delayed item pending")
    if pending == 1:
        await q.add_after(a, 5)
    await sa.settle()
    late = None
    if pending == 2:
        late = asyncio.ensure_future(q.add_after(a, 5))
        for _ in range(sa.choose(5, "turns")):
            await asyncio.sleep(0)
    n = sa.choose(3, "shut_down calls")
    done = [asyncio.ensure_future(q.shut_down()) for _ in range(n + 1)]
    await sa.settle()
    for d in done:
        sa.check(d.done(), "shut_down returns")
        sa.check(d.exception() is None, "shut_down succeeds")
    if late is not None:
        sa.check(late.done() and late.exception() is None, "add_after returns after shutdown")
    sa.check(q.shutting_down(), "shutting_down reports the shutdown")
    sa.check(getter.done(), "a blocked get is released by shutdown")
    sa.check(getter.result()[1] == True, "a blocked get is released with the marker")
    await must("get returns after shutdown", q.get())
    await must("add returns after shutdown", q.add(a))
    await must("add_after returns after shutdown", q.add_after(a, 1))
    await must("shut_down may be repeated", q.shut_down())
    for _ in range(3):
        sa.fire()
        await sa.settle()
    sa.check(len(q) == 0, "no addition after shutdown is queued")
    sa.check(len(running()) == 0, "shutdown ends the queue's background work", origins(running()))
    sa.check(len(sa.crashes()) == 0, "no operation of the queue fails", sa.crashes())


async def q03_ends_delaying():
    await shut_ends(delaying_queue.new(), True)


async def q03_ends_rate():
    await shut_ends(rate_limiting_queue.new(ZeroLimiter()), True)


async def q03_ends_default():
    await shut_ends(rate_limiting_queue.new(), True)


# ------------------------------------------------------------------ order
async def order(q, names):
    toks = [token(n) for n in names]
    waiting = []
    busy = []
    dirty = []
    while True:
        await sa.point()
        k = sa.choose(3, "client action")
        if k == 0:
            t = toks[sa.choose(len(toks), "item to add")]
            await must("add returns", q.add(again(t)))
            if t in busy:
                if t not in dirty:
                    dirty.append(t)
            elif t not in waiting:
                waiting.append(t)
        elif k == 1:
            sa.assume(len(waiting) > 0)
            x, down = await must("get returns an available item", q.get())
            sa.check(not down and x == waiting[0], "items are handed out in the order they became ready", x, waiting)
            waiting.pop(0)
            busy.append(x)
            busy.sort(key=lambda t: toks.index(t))
        else:
            sa.assume(len(busy) > 0)
            t = busy[sa.choose(len(busy), "item done")]
            await must("done returns", q.done(again(t)))
            busy.remove(t)
            if t in dirty:
                dirty.remove(t)
                waiting.append(t)
        sa.check(len(q) == len(waiting), "len counts the waiting items")


async def q04():
    await order(queue.new(), ("a", "b", "c"))


async def q04_equal():
    await order(queue.new(), ("=a", "=b"))


async def q04_delaying():
    await order(delaying_queue._DelayingType(VClock()), ("a", "b"))


# ------------------------------------------------------------------ delayed additions
async def delayed(q, clock, names, delays, limit):
    """Up to `limit` delayed additions, any clock movements and heartbeats, against the earliest-deadline oracle."""
    toks = [token(n) for n in names]
    due = {}
    n = 0
    while True:
        await sa.point()
        k = sa.choose(4, "client action")
        ops = []
        imm = []
        if k == 0:
            for _ in range(1 + sa.choose(2, "concurrent additions")):
                sa.assume(n < limit)
                n = n + 1
                t = toks[sa.choose(len(toks), "item")]
                d = sa.pick(*delays)
                ops.append(asyncio.ensure_future(q.add_after(again(t), d)))
                w = sa.now() + d
                if d <= 0:
                    imm.append(t)
                elif t not in due or w < due[t]:
                    due[t] = w
        elif k == 1:
            sa.assume(sa.timers() > 0)
            sa.fire()
        elif k == 2:
            sa.assume(sa.timers() > 0)
            sa.advance(2)
        else:
            sa.assume(len(due) > 0)
            for tk in clock.tickers:
                tk.tick()
        await sa.settle()
        for o in ops:
            sa.check(o.done(), "add_after returns")
        sa.check(len(sa.crashes()) == 0, "no operation of the queue fails", sa.crashes())
        got = []
        while len(q):
            x, down = await must("get returns an available item", q.get())
            await must("done returns", q.done(x))
            sa.check(x not in got, "an item becomes available once per addition", x)
            got.append(x)
            if x in imm:
                imm.remove(x)
                if x in due and due[x] <= sa.now():
                    del due[x]
                continue
            sa.check(x in due, "an item becomes available once per addition", x)
            sa.check(due[x] <= sa.now(), "an item never becomes available before its delay", x)
            del due[x]
        for t in toks:
            sa.check(t not in imm or t in got, "an item with no positive delay is available at once", t)
            if t in due:
                sa.check(due[t] > sa.now(), "an item becomes available as soon as the clock passes its delay", t)
        if n == limit and len(due) == 0:
            return


async def q05():
    c = VClock()
    await delayed(delaying_queue._DelayingType(c), c, ("a", "b"), (1, 3), 3)


async def q05_same():
    c = VClock()
    await delayed(delaying_queue._DelayingType(c), c, ("a",), (1, 2, 3), 4)


async def q05_zero():
    c = VClock()
    await delayed(delaying_queue._DelayingType(c), c, ("a", "b"), (0, -1, 2), 3)


async def q05_three():
    c = VClock()
    await delayed(delaying_queue._DelayingType(c), c, ("a", "b", "c"), (1, 2, 4), 3)


async def q05_four():
    c = VClock()
    await delayed(delaying_queue._DelayingType(c), c, ("a", "b", "c"), (1, 3), 4)


async def q05_equal():
    """Items compared by value, which cannot be ordered."""
    c = VClock()
    await delayed(delaying_queue._DelayingType(c), c, ("=a", "=b"), (1, 2), 3)


async def q05_full():
    """More additions at once than the queue between callers and the waiting loop holds."""
    asyncio._CAP[0] = 1
    c = VClock()
    await delayed(delaying_queue._DelayingType(c), c, ("a", "b", "c"), (1, 2), 3)


async def q05_races():
    """An addition that meets a heartbeat and the end of another delay, in any order and at any distance."""
    c = VClock()
    q = delaying_queue._DelayingType(c)
    a, b = sa.tok("a"), sa.tok("b")
    pend = {a: sa.now() + 2}
    ready = []
    may = False        # added again when its delay was over, perhaps before the queue noticed that
    await must("add_after returns", q.add_after(a, 2))
    await sa.settle()
    told = [False, False, False]
    for _ in range(3):
        k = sa.choose(3, "event")
        sa.assume(not told[k])
        told[k] = True
        n = sa.choose(4, "turns")
        if k == 0:
            sa.assume(n > 0)
            x, d = sa.pick((a, 1), (b, 1), (b, 0), (b, 3))
            new = asyncio.ensure_future(q.add_after(x, d))
            if d == 0:
                ready.append(x)
            elif x in ready:
                may = True
            elif x not in pend or sa.now() + d < pend[x]:
                pend[x] = sa.now() + d
        elif k == 1:
            for tk in c.tickers:
                tk.tick()
        else:
            sa.assume(sa.timers() > 0)
            sa.fire()
            passed(pend, ready)
        for _ in range(n):
            await asyncio.sleep(0)
    await sa.settle()
    sa.check(new.done() and new.exception() is None, "add_after returns")
    sa.check(len(sa.crashes()) == 0, "no operation of the queue fails", sa.crashes())
    # the clock may have moved while the queue was busy, so it may notice late, but it has to notice
    while True:
        got = []
        while len(q):
            x, down = await must("get returns an available item", q.get())
            await must("done returns", q.done(x))
            sa.check(x not in got, "an item becomes available once per addition", x)
            sa.check(x in ready or may and x is a, "an item never becomes available before its delay", x)
            got.append(x)
        for x in got:
            if x in ready:
                ready.remove(x)
            else:
                may = False
        if not sa.fire():
            break
        passed(pend, ready)
        await sa.settle()
    sa.check(len(pend) == 0 and len(ready) == 0, "no delayed item is lost", ready)


def passed(pend, ready):
    for x in list(pend):
        if pend[x] <= sa.now():
            del pend[x]
            if x not in ready:
                ready.append(x)


async def q05_symbolic():
    """Arbitrary positive delays of two items and a repeated one."""
    c = VClock()
    q = delaying_queue._DelayingType(c)
    a, b = sa.tok("a"), sa.tok("b")
    x = sa.num("x", lo=0, lo_open=True)
    y = sa.num("y", lo=0, lo_open=True)
    z = sa.num("z", lo=0, lo_open=True)
    t0 = sa.now()
    await must("add_after returns", q.add_after(a, x))
    await must("add_after returns", q.add_after(b, y))
    await must("add_after returns", q.add_after(a, z))
    due = {a: t0 + (x if x <= z else z), b: t0 + y}
    for _ in range(4):
        await sa.settle()
        while len(q):
            it, down = await must("get returns an available item", q.get())
            await must("done returns", q.done(it))
            sa.check(it in due, "an item becomes available once per addition", it)
            sa.check(due[it] == sa.now(), "an item becomes available exactly when its delay is over", it)
            del due[it]
        if not sa.fire():
            break
    sa.check(len(due) == 0, "an item becomes available as soon as the clock passes its delay")


# ------------------------------------------------------------------ limiters
async def q06_counts():
    await counts(("a", "b"))


async def q06_equal():
    await counts(("=a", "=b"))


async def counts(names):
    lim = default_rate_limiters.ItemExponentialFailureRateLimiter(1, 5)
    toks = [token(n) for n in names]
    cnt = [0, 0]
    while True:
        await sa.point()
        i = sa.choose(2, "item")
        k = sa.choose(3, "operation")
        if k == 0:
            sa.assume(cnt[i] < 5)
            r = lim.when(again(toks[i]))
            e = 2 ** cnt[i]
            sa.check(r == (e if e <= 5 else 5), "the n-th delay is min(base * 2**n, max)", r, cnt[i])
            cnt[i] += 1
        elif k == 1:
            lim.forget(again(toks[i]))
            cnt[i] = 0
        for j in (0, 1):
            sa.check(lim.num_requeues(again(toks[j])) == cnt[j], "num_requeues counts the calls since the last forget")


async def q06_total():
    """However many failures: the delay stays capped and nothing is raised."""
    base, cap = sa.pick((0.005, 1000), (1, 60), (0.5, 1e18), (1e-9, 300), (7.5, 2.5))
    lim = default_rate_limiters.ItemExponentialFailureRateLimiter(base, cap)
    a = sa.tok("a")
    seen = False
    for n in range(2100):
        r, e = outcome_sync(lim.when, a)
        sa.check(e is None, "no number of failures makes the limiter raise", n)
        if not seen:
            x = base * 2 ** n
            seen = x >= cap
            sa.check(r == (cap if seen else x), "the n-th delay is min(base * 2**n, max)", n, r)
        else:
            sa.check(r == cap, "the delay stays at the maximum", n, r)
    sa.check(lim.num_requeues(a) == 2100, "num_requeues counts the calls since the last forget")
    lim.forget(a)
    sa.check(lim.num_requeues(a) == 0, "forget resets the item")
    sa.check(lim.when(a) == min(base, cap), "forget resets the item")


async def q06_symbolic():
    base = sa.num("base", lo=0, lo_open=True)
    cap = sa.num("max", lo=0, lo_open=True)
    lim = default_rate_limiters.ItemExponentialFailureRateLimiter(base, cap)
    a = sa.tok("a")
    for n in range(5):
        r = lim.when(a)
        e = base * 2 ** n
        sa.check(r == (e if e <= cap else cap), "the n-th delay is min(base * 2**n, max)", n, r)


class Member:
    def __init__(self, name):
        self.delay = sa.num("delay" + name, lo=0)
        self.count = sa.num("count" + name, lo=0)
        self.calls = []

    def when(self, item):
        self.calls.append(("when", item))
        return self.delay

    def forget(self, item):
        self.calls.append(("forget", item))

    def num_requeues(self, item):
        self.calls.append(("num", item))
        return self.count


def largest(xs):
    m = xs[0]
    for x in xs[1:]:
        if x > m:
            m = x
    return m


async def q07_max():
    combined = type(default_rate_limiters.default_controller_rate_limiter())
    ms = [Member(str(i)) for i in range(1 + sa.choose(3, "members"))]
    lim = combined(*ms)
    a, b = sa.tok("a"), sa.tok("b")
    first = True
    for _ in range(2):
        for m in ms:
            m.calls = []
        k = sa.choose(3, "operation")
        if k == 0:
            sa.check(lim.when(a) == largest([m.delay for m in ms]), "the combined delay is the largest member delay")
            name = "when"
        elif k == 1:
            sa.check(lim.num_requeues(a) == largest([m.count for m in ms]),
                     "the combined count is the largest member count")
            name = "num"
        else:
            lim.forget(a)
            name = "forget"
        for m in ms:
            sa.check(m.calls == [(name, a)], "every member is consulted exactly once per call", m.calls)


async def q07_default():
    """The default limiter combines an exponential and a bucket limiter; under no load it is the exponential one."""
    sa.assume(sa.now() > 1000)
    lim = default_rate_limiters.default_controller_rate_limiter()
    a, b = sa.tok("a"), sa.tok("b")
    sa.check(lim.when(a) == 0.005, "the default limiter starts at its base delay")
    sa.check(lim.when(a) == 0.01, "the default limiter doubles")
    sa.check(lim.when(b) == 0.005, "limiters count per item")
    sa.check(lim.num_requeues(a) == 2, "num_requeues counts the calls since the last forget")
    lim.forget(a)
    sa.check(lim.num_requeues(a) == 0, "forget resets the item")
    sa.check(lim.num_requeues(b) == 1, "forget resets only that item")


async def q09():
    """The default limiter, under a load beyond its burst, and for an item that keeps failing."""
    sa.assume(sa.now() > 1000)
    own = sa.flag("the limiter of a queue made without one")
    if own:
        q = rate_limiting_queue.new()
        lim = q._rate_limiter if hasattr(q, "_rate_limiter") else None
        sa.assume(lim is not None)
    else:
        lim = default_rate_limiters.default_controller_rate_limiter()
    SLOW = "the default limiter doubles from 5 milliseconds to 1000 seconds for one item"
    RATE = "beyond a burst of 100 the default limiter allows 10 additions per second overall"
    if sa.flag("one item"):
        a = sa.tok("a")
        for i in range(20):
            d = lim.when(a)
            want = min(0.005 * 2 ** i, 1000)
            sa.check(d == want, SLOW, i, d)
        sa.check(lim.num_requeues(a) == 20, "num_requeues counts the calls since the last forget")
        lim.forget(a)
        sa.check(lim.when(a) == 0.005, SLOW)
        return
    for i in range(100):
        d = lim.when(i)
        sa.check(d == 0.005, RATE, i, d)
    for i in range(3):
        d = lim.when(1000 + i)
        sa.check(sa.entail(d, ">=", 0.1 * (i + 1) - 1e-6) and sa.entail(d, "<=", 0.1 * (i + 1) + 1e-6), RATE, i, d)


class TableLimiter:
    def __init__(self):
        self.calls = []

    def when(self, item):
        self.calls.append(("when", item))
        return 1 if item == sa.tok("a") else 3

    def forget(self, item):
        self.calls.append(("forget", item))

    def num_requeues(self, item):
        self.calls.append(("num", item))
        return 7


async def q07_add():
    lim = TableLimiter()
    q = rate_limiting_queue._RateLimitingType(lim, VClock())
    a, b = sa.tok("a"), sa.tok("b")
    t = sa.pick(a, b)
    u = sa.pick(a, b)
    t0 = sa.now()
    await must("add_rate_limited returns", q.add_rate_limited(t))
    await must("add_rate_limited returns", q.add_rate_limited(u))
    sa.check(lim.calls == [("when", t), ("when", u)], "one delay is asked for per rate-limited addition", lim.calls)
    got = []
    await sa.settle()
    sa.check(len(q) == 0, "a rate-limited item waits for its delay")
    while sa.fire():
        await sa.settle()
        while len(q):
            x, _ = await q.get()
            await q.done(x)
            sa.check(sa.now() == t0 + (1 if x == a else 3), "an item is added after exactly its limiter's delay", x)
            got.append(x)
    exp = [x for x in (a, b) if x == t or x == u]
    sa.check(got == exp, "every rate-limited item becomes available", got)
    lim.calls = []
    q.forget(t)
    sa.check(lim.calls == [("forget", t)], "forget of the queue is that of its limiter", lim.calls)
    sa.check(q.num_requeues(t) == 7 and lim.calls[1:] == [("num", t)], "num_requeues of the queue is that of its limiter")
    z = rate_limiting_queue.new(lim)
    lim.calls = []
    z.forget(t)
    sa.check(lim.calls == [("forget", t)], "new uses the limiter it is given")


async def q08():
    """Any rate, any burst, any clock movements: delays equal those of an ideal bucket."""
    rate, burst = sa.pick((10, 2), (1, 1), (0.5, 3), (4, 2.5))
    lim = default_rate_limiters.BucketRateLimiter(rate, burst)
    sa.assume(sa.now() > 1000)
    tokens = burst
    a = sa.tok("a")
    last = sa.now()
    for _ in range(3):
        r = lim.when(a)
        d = sa.now() - last
        last = sa.now()
        if d > 0:
            tokens = tokens + d * rate
            if tokens > burst:
                tokens = burst
        tokens = tokens - 1
        exp = 0 if tokens >= 0 else -tokens / rate
        sa.check(r == exp, "the delay is the time until the missing tokens are refilled", r, exp)
        sa.check(r >= 0, "the delay is never negative", r)
        sa.check(lim.num_requeues(a) == 0, "the bucket keeps no count")
        lim.forget(a)
        k = sa.choose(3, "clock")
        if k == 1:
            sa.advance(sa.num("dt", lo=0))
        elif k == 2:
            sa.advance(sa.num("dt", hi=0, lo=-100))


async def q08_long():
    """Concrete clock steps, longer histories."""
    rate, burst = sa.pick((2, 2), (1, 3))
    lim = default_rate_limiters.BucketRateLimiter(rate, burst)
    sa.assume(sa.now() > 1000)
    tokens = burst
    a = sa.tok("a")
    last = sa.now()
    for _ in range(7):
        await sa.point()
        d = sa.pick(0, 0.25, 1, 4, -1)
        sa.advance(d)
        if d > 0:
            tokens = tokens + d * rate
            if tokens > burst:
                tokens = burst
        tokens = tokens - 1
        exp = 0 if tokens >= 0 else -tokens / rate
        r = lim.when(a)
        sa.check(r == exp, "the delay is the time until the missing tokens are refilled", r, exp)
        sa.check(r >= 0, "the delay is never negative", r)


async def q08_reject():
    rate = sa.num("rate")
    burst = sa.num("burst")
    r, e = outcome_sync(default_rate_limiters.BucketRateLimiter, rate, burst)
    bad = rate <= 0 or burst < 1
    sa.check(bad == (e is not None), "a non-positive rate or a burst below one is rejected, anything else accepted")
