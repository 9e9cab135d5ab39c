"""Drivers for the wait loops, backoff, clocks and metadata access."""
import asyncio
import sa
from aiok8s.util import wait, clock
from aiok8s.api import meta
from aiok8s.cache import store, index
from specs.common import *


def between(x, lo, hi):
    """lo <= x < hi"""
    return sa.entail(x, ">=", lo) and sa.entail(x, "<", hi)


class Cond(Exception):
    pass


# ------------------------------------------------------------------ loops
PAUSE = "the pause between calls is at least the period and less than period * (1 + factor)"
EXACT = "without a positive factor the pause is exactly the period"
OVERRUN = "a call longer than the period is followed by the next call at once"


class Loop:
    """A function under a wait loop, recording when it runs."""

    def __init__(self, period, factor, sliding, event=None):
        self.period = period
        self.factor = factor
        self.sliding = sliding
        self.event = event
        self.ref = None            # the moment the pause is measured from
        self.end = None
        self.running = False

    async def __call__(self):
        t = sa.now()
        sa.check(not self.running, "the function is not called while it runs")
        self.running = True
        if self.event is not None:
            sa.check(not self.event.is_set(), "the function is never called once the stop event is set")
        if self.ref is not None:
            gap = t - self.ref
            if sa.same(t, self.end) and not self.sliding:
                sa.check(sa.entail(gap, ">=", self.period), OVERRUN)
            elif self.factor is None:
                sa.check(sa.entail(gap, "==", self.period), EXACT)
            else:
                sa.check(between(gap, self.period, self.period * (1 + self.factor)), PAUSE)
        self.ref = t
        if sa.flag("the call takes time"):
            await asyncio.sleep(sa.num("call", 0, lo_open=True))
        self.end = sa.now()
        if self.sliding:
            self.ref = self.end
        self.running = False


def params():
    period = sa.num("period", 0, lo_open=True)
    k = sa.choose(3, "factor")
    factor = None if k < 2 else sa.num("factor", 0, lo_open=True)
    given = (0, sa.num("neg", None, 0), factor)[k]
    return period, factor, given


async def u01_loop():
    period, factor, given = params()
    sliding = sa.flag("sliding")
    f = Loop(period, factor, sliding)
    if k_plain(given) and sliding and sa.flag("plain loop"):
        t = asyncio.ensure_future(wait.loop(f, period))
    else:
        t = asyncio.ensure_future(wait.jitter_loop(f, period, given, sliding))
    await sa.settle()
    sa.check(f.ref is not None or f.running, "the first call is made at once")
    f.ref = f.ref
    while True:
        await sa.point()
        sa.check(not t.done(), "the loop goes on until it is stopped")
        sa.check(sa.fire(), "the loop goes on until it is stopped")
        await sa.settle()


def k_plain(given):
    return sa.same(given, 0)


async def u01_until():
    period, factor, given = params()
    sliding = sa.flag("sliding")
    ev = asyncio.Event()
    if sa.flag("set before"):
        ev.set()
    f = Loop(period, factor, sliding, ev)
    if k_plain(given) and sliding and sa.flag("plain until"):
        t = asyncio.ensure_future(wait.until(f, period, ev))
    else:
        t = asyncio.ensure_future(wait.jitter_until(f, period, given, sliding, ev))
    await sa.settle()
    sa.check(ev.is_set() or f.ref is not None or f.running, "the first call is made at once")
    while True:
        await sa.point()
        if ev.is_set():
            if not f.running:
                sa.check(t.done() and not t.cancelled() and t.exception() is None,
                         "waiting stops as soon as the stop event is set")
                return
            sa.check(not t.done(), "the running call is finished before the loop ends")
        else:
            sa.check(not t.done(), "the loop goes on until it is stopped")
            if sa.flag("set the stop event"):
                ev.set()
                await sa.settle()
                continue
        sa.check(sa.fire(), "the loop goes on until it is stopped")
        await sa.settle()


async def u01_busy():
    """The stop event set by the function itself, or by a task that runs at the same moment as the timer."""
    period, factor, given = params()
    sliding = sa.flag("sliding")
    ev = asyncio.Event()
    calls = []

    async def f():
        sa.check(not ev.is_set(), "the function is never called once the stop event is set")
        sa.assume(len(calls) < 2)
        calls.append(1)
        if sa.flag("sets the event"):
            ev.set()

    async def g():
        await asyncio.sleep(period)
        ev.set()
    t = asyncio.ensure_future(wait.jitter_until(f, period, given, sliding, ev))
    if sa.flag("another task sets it"):
        asyncio.ensure_future(g())
    await sa.settle()
    while not t.done():
        await sa.point()
        if ev.is_set():
            sa.fail("waiting stops as soon as the stop event is set")
        sa.fire()
        await sa.settle()
    sa.check(ev.is_set(), "the loop goes on until it is stopped")


async def u01_jitter():
    d = sa.num("d", 0, lo_open=True)
    k = sa.choose(3, "factor")
    if k == 2:
        f = sa.num("f", 0, lo_open=True)
        sa.check(between(wait.jitter(d, f), d, d * (1 + f)), "jitter stays within its factor")
    else:
        f = 0 if k == 0 else sa.num("neg", None, 0)
        sa.check(between(wait.jitter(d, f), d, d * 2), "jitter without a positive factor uses one")


# ------------------------------------------------------------------ backoff and polling
def fields(b):
    return [b.duration, b.factor, b.jitter, b.steps, b.cap]


async def u02_backoff():
    n = sa.choose(6, "steps") - 1
    grows, jitters = sa.flag("with factor"), sa.flag("with jitter")
    d = sa.num("d", 0, lo_open=jitters)
    factor = sa.num("factor", 1) if grows else 0
    jit = sa.num("jit", 0, lo_open=True) if jitters else 0
    b = wait.Backoff(steps=n, duration=d, factor=factor, jitter=jit)
    before = fields(b)
    calls = [0, None]

    async def condition():
        sa.check(calls[0] < n, "the condition is called at most as often as there are steps")
        if calls[1] is not None:
            gap = sa.now() - calls[1]
            want = d
            if grows:
                for _ in range(calls[0] - 1):
                    want = want * factor
            if not jitters:
                sa.check(sa.entail(gap, "==", want), "attempts are spaced by the backoff duration")
            else:
                sa.check(sa.entail(gap, ">=", want) and sa.entail(gap, "<=", want * (1 + jit)),
                         "attempts are spaced by the backoff duration")
        calls[0] += 1
        calls[1] = sa.now()
        k = sa.choose(3, "condition")
        if k == 2:
            calls.append("boom")
            raise Cond
        if k == 1:
            calls.append("true")
            return True
        return False
    r, e = await must("exponential_backoff ends", outcome(wait.exponential_backoff(b, condition)), 8)
    last = calls[2] if len(calls) > 2 else None
    if last == "true":
        sa.check(e is None, "a true condition ends the backoff successfully")
    elif last == "boom":
        sa.check(isinstance(e, Cond), "the condition's exception reaches the caller")
    else:
        sa.check(isinstance(e, wait.WaitTimeoutError), "WaitTimeoutError after the last false attempt")
        sa.check(calls[1] is None or sa.entail(sa.now() - calls[1], "==", 0), "there is no pause after the last attempt")
        sa.check(calls[0] == (n if n > 0 else 0), "every step makes an attempt")
    after = fields(b)
    for i in range(5):
        sa.check(sa.same(before[i], after[i]), "the given backoff is not modified")


async def u02_cap():
    """step with a cap: below the cap it multiplies, the cap is never exceeded."""
    n = sa.choose(4, "steps")
    cap = sa.num("cap", 0, lo_open=True)
    d = sa.num("d", 0)
    grows, jitters = sa.flag("with factor"), sa.flag("with jitter")
    factor = sa.num("factor", 1) if grows else 0
    jit = sa.num("jit", 0, lo_open=True) if jitters else 0
    capped = sa.flag("capped")
    b = wait.Backoff(steps=n, duration=d, factor=factor, jitter=jit, cap=cap if capped else 0)
    want = d
    left = n
    for i in range(4):
        got = b.step()
        if capped and not jitters and grows and i > 0 and i <= n:
            sa.check(sa.entail(got, "<=", cap), "step never exceeds the cap (before jitter)")
        if not jitters:
            sa.check(sa.entail(got, "==", want), "step multiplies by the factor up to the cap")
        else:
            sa.check(sa.entail(got, ">=", want) and sa.entail(got, "<=", want * (1 + jit)),
                     "step multiplies by the factor up to the cap")
        if left > 0:
            left -= 1
            if grows:
                want = want * factor
                if capped and want > cap:
                    want = cap
                    left = 0


async def u02_backoff_cap():
    """A capped backoff: it ends only when a pause would have grown beyond the cap."""
    n = sa.choose(4, "steps") + 1
    d = sa.num("d", 0)
    factor = (0, 1, 2)[sa.choose(3, "factor")]
    cap = sa.num("cap", 0, lo_open=True)
    b = wait.Backoff(steps=n, duration=d, factor=factor, cap=cap)
    at = []

    async def condition():
        at.append(sa.now())
        return False
    r, e = await must("exponential_backoff ends", outcome(wait.exponential_backoff(b, condition)), 6)
    sa.check(isinstance(e, wait.WaitTimeoutError), "WaitTimeoutError after the last false attempt")
    want = d
    calls = 1
    for i in range(n - 1):
        grown = want * factor if factor else want
        if factor and grown > cap:
            # The pause that is still the given one is made, the attempt after it is the last there could be.
            break
        calls += 1
        want = grown
    sa.check(len(at) == calls, "the attempts end early only when a pause would exceed the cap", len(at), calls)
    want = d
    for i in range(1, len(at)):
        sa.check(sa.entail(at[i] - at[i - 1], "==", want), "attempts are spaced by the backoff duration")
        want = want * factor if factor else want


async def u02_poll():
    interval = sa.num("interval", 0, lo_open=True)
    kind = sa.choose(4, "variant")
    bounded = kind < 2
    immediate = kind % 2 == 1
    timeout = 0 if sa.flag("no time at all") else sa.num("timeout", 0, lo_open=True)
    state = [None, None, 0]        # last call's end, verdict, start of the wait

    async def condition():
        t = sa.now()
        sa.check(state[1] is None, "polling ends with the first true or failing condition")
        if state[0] is None:
            if immediate:
                sa.check(sa.entail(t, "==", state[2]), "the immediate variants test before waiting")
            else:
                sa.check(sa.entail(t - state[2], "==", interval), "the other variants wait before testing")
        else:
            sa.check(sa.entail(t - state[0], "==", interval), "tests are one interval apart")
        k = sa.choose(3, "condition")
        state[0] = t
        state[2] = None
        if k == 2:
            state[1] = "boom"
            raise Cond
        if k == 1:
            state[1] = "true"
            return True
        return False
    state[2] = sa.now()
    begin = sa.now()
    if kind == 0:
        aw = wait.poll(interval, timeout, condition)
    elif kind == 1:
        aw = wait.poll_immediate(interval, timeout, condition)
    elif kind == 2:
        aw = wait.poll_infinite(interval, condition)
    else:
        aw = wait.poll_immediate_infinite(interval, condition)
    t = asyncio.ensure_future(outcome(aw))
    await sa.settle()
    n = 0
    if not bounded:
        begin = 0
    while not t.done():
        if bounded:
            n += 1
            sa.assume(n < 4)
        await sa.point()
        sa.check(state[1] is None, "polling ends with the first true or failing condition")
        sa.check(sa.fire(), "polling goes on until its end")
        await sa.settle()
    r, e = t.result()
    if state[1] == "true":
        sa.check(e is None, "polling returns on the first true condition")
    elif state[1] == "boom":
        sa.check(isinstance(e, Cond), "the condition's exception reaches the caller of poll")
    else:
        sa.check(bounded and isinstance(e, wait.WaitTimeoutError), "WaitTimeoutError on timeout")
        sa.check(sa.entail(sa.now() - begin, "==", timeout), "the timeout is the one given")


async def u02_slow():
    """A condition that takes longer than the timeout is abandoned at the timeout."""
    timeout = sa.num("timeout", 0, lo_open=True)
    interval = sa.num("interval", 0, lo_open=True)
    sa.assume(interval < timeout)
    seen = []

    async def condition():
        seen.append(1)
        await asyncio.sleep(timeout * 2)
        sa.fail("a condition that outlasts the timeout is abandoned")
    begin = sa.now()
    r, e = await must("poll ends", outcome(wait.poll(interval, timeout, condition)), 6)
    sa.check(isinstance(e, wait.WaitTimeoutError), "WaitTimeoutError on timeout")
    sa.check(sa.entail(sa.now() - begin, "==", timeout), "the timeout is the one given")
    sa.check(len(seen) == 1, "the condition was tried")


# ------------------------------------------------------------------ clocks
async def u03_fake_timers():
    t0 = sa.num("t0")
    c = clock.FakeClock(t0)
    now = t0
    ts = []                        # [timer, queue, target or None, pending value or None]
    ops = 0
    while ops < 4:
        ops += 1
        await sa.point()
        k = sa.choose(5, "operation")
        if k == 0:
            sa.assume(len(ts) < 2)
            d = sa.num("d", 0, lo_open=True)
            t = c.new_timer(d)
            ts.append([t, t.c(), now + d])
        elif k == 1:
            dt = sa.num("dt", 0)
            now = now + dt
            if sa.flag("set_time"):
                await must("set_time returns", c.set_time(now))
            else:
                await must("step returns", c.step(dt))
            sa.check(sa.entail(c.now(), "==", now), "the clock shows the time it was set to")
            sa.check(sa.entail(c.since(t0), "==", now - t0), "since measures from the given time")
            for x in ts:
                if x[2] is not None and x[2] <= now:
                    x[2] = None
                    sa.check(x[1].qsize() == 1, "a timer fires once its time is reached")
                    if x[1].qsize() == 1:
                        sa.check(sa.entail(x[1].get_nowait(), "==", now), "the timer delivers the time")
        elif k == 2:
            sa.assume(len(ts) > 0)
            x = ts[sa.choose(len(ts), "timer")]
            was = x[2] is not None
            sa.check(x[0].stop() == was, "stop says whether the timer was pending")
            x[2] = None
        elif k == 3:
            sa.assume(len(ts) > 0)
            x = ts[sa.choose(len(ts), "timer")]
            was = x[2] is not None
            d = sa.num("d", 0, lo_open=True)
            sa.check(x[0].reset(d) == was, "reset says whether the timer was pending")
            if was:
                x[2] = now + d
        else:
            for x in ts:
                sa.check(x[0].c() is x[1], "a timer keeps its queue")
            sa.check(c.has_waiters() == any([x[2] is not None for x in ts]), "has_waiters tells of pending timers")
            break
        for x in ts:
            sa.check(x[1].empty(), "a timer fires only once, at its time, and never when stopped")


async def u03_fake_ticker():
    t0 = sa.num("t0")
    c = clock.FakeClock(t0)
    d = sa.num("d", 0, lo_open=True)
    tick = c.new_ticker(d)
    other = c.new_timer(d * 2)
    q = tick.c()
    nxt = t0 + d
    now = t0
    full = False
    fired = False
    stamp = None
    for _ in range(3):
        dt = sa.num("dt", 0)
        sa.assume(dt < d * 5 / 2)
        await must("step returns although nobody took the tick", c.step(dt))
        now = now + dt
        hit = False
        while nxt <= now:
            hit = True
            nxt = nxt + d
        if full or hit:
            sa.check(q.qsize() == 1, "a ticker ticks once per step that passes a tick")
        else:
            sa.check(q.qsize() == 0, "a ticker does not tick early")
        if hit and not full:
            stamp = now
        full = full or hit
        if not fired and t0 + d * 2 <= now:
            fired = True
            sa.check(other.c().qsize() == 1, "a timer beside a ticker fires")
        elif not fired:
            sa.check(other.c().qsize() == 0, "a timer beside a ticker fires at its time")
        if full and sa.flag("take the tick"):
            got = q.get_nowait()
            sa.check(sa.is_num(got), "the tick carries a time")
            sa.check(sa.entail(got, "==", stamp), "while a tick is not taken later ones are dropped", got)
            full = False


async def u03_real_timer():
    c = clock.RealClock()
    d = sa.num("d", 0, lo_open=True)
    begin = sa.now()
    t = c.new_timer(d)
    q = t.c()
    k = sa.choose(3, "what happens")
    if k == 0:
        await must("a real timer fires", q.get(), 1)
        sa.check(sa.entail(sa.now() - begin, "==", d), "a real timer fires after its duration")
        t.stop()
    elif k == 1:
        t.stop()
    else:
        await sa.settle()
        sa.check(q.empty(), "a real timer does not fire early")
        t.stop()
    await sa.settle()
    while sa.fire():
        await sa.settle()
    sa.check(q.empty(), "a stopped or fired timer never fires again")


async def u03_real_ticker():
    c = clock.RealClock()
    d = sa.num("d", 0, lo_open=True)
    t = c.new_ticker(d)
    q = t.c()
    last = sa.now()
    await sa.settle()
    stopped = False
    full = False
    missed = 0
    while True:
        await sa.point()
        if stopped:
            sa.check(not sa.fire() or q.qsize() == (1 if full else 0), "a stopped ticker is silent")
            await sa.settle()
            sa.check(q.qsize() == (1 if full else 0), "a stopped ticker is silent")
            return
        k = sa.choose(3, "step")
        if k == 0:
            t.stop()
            await sa.settle()
            stopped = True
        elif k == 1:
            sa.assume(missed < 3)
            missed += 1
            sa.check(sa.fire(), "a ticker ticks repeatedly, also without a reader")
            await sa.settle()
            sa.check(sa.entail(sa.now() - last, "==", d), "ticks are one period apart")
            last = sa.now()
            full = True
            sa.check(q.qsize() == 1, "a ticker ticks repeatedly, also without a reader")
        else:
            sa.assume(full)
            q.get_nowait()
            full = False
            missed = 0


# ------------------------------------------------------------------ metadata
class Meta(Full):
    def __init__(self, namespace, name, uid, resource_version):
        self.namespace = namespace
        self.name = name
        self.uid = uid
        self.resource_version = resource_version


class Typed:
    def __init__(self, metadata):
        self.metadata = metadata


class TypedKind:
    def __init__(self, api_version, kind):
        self.api_version = api_version
        self.kind = kind


class Bare:
    pass


class TypedList:
    def __init__(self, metadata, items):
        self.metadata = metadata
        self.items = items


NAMES = ("namespace", "name", "uid", "resourceVersion")
AGREE = "typed objects and dictionaries agree on their metadata"


async def a01():
    vals = [None, None, None, None]
    form = [0, 0, 0, 0]
    raw = {}
    for i in range(4):
        form[i] = sa.choose(3, "field absent / None / present")
        if form[i] == 1:
            raw[NAMES[i]] = None
        elif form[i] == 2:
            vals[i] = ("Ns", "n.A", "U", "7")[i]
            raw[NAMES[i]] = vals[i]
    typed = Typed(Meta(*vals))
    dic = {"metadata": raw}
    for o in (typed, dic):
        a = meta.accessor(o)
        sa.check(a.namespace == vals[0], AGREE)
        sa.check(a.name == vals[1], AGREE)
        sa.check(a.uid == vals[2], AGREE)
        sa.check(a.resource_version == vals[3], AGREE)
    if form[1] == 2:
        want = "n.A" if vals[0] is None else "Ns/n.A"
        for o in (typed, dic):
            sa.check(store.meta_namespace_key_func(o) == want, "the store key is namespace/name, or the name alone")
        if form[0] == 2:
            for o in (typed, dic):
                sa.check(list(index.meta_namespace_index_func(o)) == ["Ns"], "the namespace index is the namespace")
    for o in (typed, dic):
        meta.accessor(o).resource_version = "8"
        sa.check(meta.accessor(o).resource_version == "8", "setting the resource version is visible in the object")
    sa.check(typed.metadata.resource_version == "8" and dic["metadata"]["resourceVersion"] == "8",
             "setting the resource version is visible in the object")
    sa.check(meta.accessor(typed).name == vals[1] and meta.accessor(dic).name == vals[1]
             and meta.accessor(dic).uid == vals[2] and meta.accessor(typed).uid == vals[2], AGREE)


async def a01_symbolic():
    """Arbitrary values pass through unchanged."""
    vals = [sa.unknown("ns"), sa.unknown("name"), sa.unknown("uid"), sa.unknown("rv")]
    typed = Typed(Meta(*vals))
    dic = {"metadata": {NAMES[i]: vals[i] for i in range(4)}}
    new = sa.unknown("new")
    for o in (typed, dic):
        a = meta.accessor(o)
        sa.check(sa.same(a.namespace, vals[0]) and sa.same(a.name, vals[1]) and sa.same(a.uid, vals[2])
                 and sa.same(a.resource_version, vals[3]), AGREE)
        a.resource_version = new
        sa.check(sa.same(meta.accessor(o).resource_version, new), "setting the resource version is visible in the object")
    sa.check(sa.same(typed.metadata.resource_version, new) and sa.same(dic["metadata"]["resourceVersion"], new),
             "setting the resource version is visible in the object")


async def a01_list():
    x, y = Bare(), Bare()
    k = sa.choose(3, "version")
    raw = {} if k == 0 else {"resourceVersion": None if k == 1 else "5"}
    want = "5" if k == 2 else None
    typed = TypedList(Meta(None, None, None, want), [x, y])
    dic = {"metadata": raw, "items": [x, y]}
    for o in (typed, dic):
        a = meta.list_accessor(o)
        sa.check(a.resource_version == want, "typed lists and dictionaries agree on the resource version")
        items = meta.extract_list(o)
        sa.check(len(items) == 2 and items[0] is x and items[1] is y, "the items of a list are its items")
        a.resource_version = "6"
        sa.check(meta.list_accessor(o).resource_version == "6", "setting the resource version is visible in the list")
        meta.set_list(o, [y])
        items = meta.extract_list(o)
        sa.check(len(items) == 1 and items[0] is y, "the items of a list can be replaced")
    sa.check(typed.metadata.resource_version == "6" and dic["metadata"]["resourceVersion"] == "6",
             "setting the resource version is visible in the list")
    sa.check(len(typed.items) == 1 and len(dic["items"]) == 1, "the items of a list can be replaced")


class Record(dict):
    """A dictionary of a kind of its own, as decoders hand them out."""


async def a01_record():
    """A dictionary is one whatever its class."""
    o = Record()
    o["metadata"] = {"namespace": "ns", "name": "n", "uid": "u", "resourceVersion": "7"}
    o["apiVersion"], o["kind"] = "apps/v1", "Deployment"
    x, y = Bare(), Bare()
    o["items"] = [x]
    a = meta.accessor(o)
    sa.check(a.namespace == "ns" and a.name == "n" and a.uid == "u" and a.resource_version == "7", AGREE)
    sa.check(meta.list_accessor(o).resource_version == "7", AGREE)
    sa.check(store.meta_namespace_key_func(o) == "ns/n", "the store key is namespace/name, or the name alone")
    items = meta.extract_list(o)
    sa.check(len(items) == 1 and items[0] is x, "the items of a list are its items")
    meta.set_list(o, [y])
    sa.check(len(o["items"]) == 1 and o["items"][0] is y, "the items of a list can be replaced")
    a.resource_version = "8"
    sa.check(o["metadata"]["resourceVersion"] == "8", "setting the resource version is visible in the object")
    t = meta.type_accessor(o)
    sa.check(t.kind == "Deployment" and t.group_version_kind.group == "apps", AGREE)


async def a01_reject():
    k = sa.choose(6, "object")
    o = ({}, {"metadata": None}, Bare(), Typed(None), None, {"kind": "Pod"})[k]
    r, e = outcome_sync(meta.accessor, o)
    sa.check(e is not None, "an object without metadata is rejected")
    r, e = outcome_sync(meta.list_accessor, o)
    sa.check(e is not None, "a list without metadata is rejected")
    r, e = outcome_sync(store.meta_namespace_key_func, o)
    sa.check(e is not None, "an object without metadata has no key")
    sa.check(store.meta_namespace_key_func(store.ExplicitKey("a/b")) == "a/b", "an explicit key is its own key")


async def a02():
    cases = (("v1", "", "v1"), ("apps/v1", "apps", "v1"), ("Mixed.Case/V1", "Mixed.Case", "V1"), ("v1beta1", "", "v1beta1"),
             ("g.example.com/v1alpha2", "g.example.com", "v1alpha2"), ("rbac.authorization.k8s.io/v1", "rbac.authorization.k8s.io", "v1"))
    v, g, ver = cases[sa.choose(len(cases), "api version")]
    kind = ("Pod", "Deployment")[sa.choose(2, "kind")]
    for o in (TypedKind(v, kind), {"apiVersion": v, "kind": kind, "metadata": {}}):
        a = meta.type_accessor(o)
        gvk = a.group_version_kind
        sa.check(gvk.group == g and gvk.version == ver, "group and version are those of the API version")
        sa.check(gvk.kind == kind, "the kind is kept")
        sa.check(a.api_version == v and a.kind == kind, "API version and kind are those of the object")
