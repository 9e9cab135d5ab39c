"""Drivers for the reflector."""
import asyncio
import sa
from aiok8s.cache import reflector
from aiok8s.runtime import schema
from specs.common import *


class Boom(Exception):
    pass


class Meta(Full):
    def __init__(self, resource_version):
        self.resource_version = resource_version
        self.name = "n"
        self.namespace = "ns"


class Thing(Falsy):
    def __init__(self, rv):
        self.metadata = Meta(rv)


class Sub(Thing):
    pass


class Other:
    def __init__(self, rv):
        self.metadata = Meta(rv)


class NoMeta(Thing):
    def __init__(self):
        pass


class Listing:
    def __init__(self, rv, items):
        self.metadata = Meta(rv)
        self.items = items


class Gate:
    """A place where the library waits for the environment."""

    def __init__(self):
        self.fut = None

    async def wait(self):
        f = asyncio.get_event_loop().create_future()
        self.fut = f
        try:
            return await f
        finally:
            if self.fut is f:
                self.fut = None

    def open(self):
        return self.fut is not None and not self.fut.done()

    def give(self, value):
        self.fut.set_result(value)

    def fail(self):
        self.fut.set_exception(Boom())


class Stream:
    def __init__(self, env):
        self.env = env
        self.backlog = []

    def __aiter__(self):
        return self

    async def __anext__(self):
        if self.backlog:
            e = self.backlog.pop(0)
        else:
            e = await self.env.event.wait()
        if e is None:
            raise StopAsyncIteration
        if e == "boom":
            raise Boom
        return e

    async def __aenter__(self):
        self.env.opened += 1
        return self

    async def __aexit__(self, *exc):
        try:
            for _ in range(4):             # closing takes a moment
                await asyncio.sleep(0)
        finally:
            self.env.opened -= 1


class Env:
    """Lister-watcher and store of a reflector, both under the driver's control."""

    def __init__(self):
        self.list_gate = Gate()
        self.watch_gate = Gate()
        self.event = Gate()
        self.stream = None
        self.opened = 0
        self.left = 0
        self.log = []
        self.asked = None          # version the last watch call asked for
        self.listed = None
        self.fails = False         # may store operations fail
        self.resyncs = 0
        self.resync_fails = False
        self.resync_failed = False
        self.op_gate = None        # where slow store operations wait
        self.sync_gate = None      # where slow resyncs wait
        self.busy = 0              # store operations at work

    async def slowly(self, gate):
        if gate is None:
            return
        self.busy += 1
        try:
            await gate.wait()
        finally:
            try:
                for _ in range(4):
                    await asyncio.sleep(0)
            finally:
                self.busy -= 1

    async def list(self, options):
        self.listed = options["resource_version"]
        return await self.list_gate.wait()

    async def watch(self, options):
        self.asked = options["resource_version"]
        await self.watch_gate.wait()
        self.stream = Stream(self)
        return self.stream

    def op(self, *what):
        self.log.append(what)
        if self.fails and sa.flag("store operation fails"):
            raise Boom

    async def add(self, o):
        self.op("add", o)
        await self.slowly(self.op_gate)

    async def update(self, o):
        self.op("update", o)

    async def delete(self, o):
        self.op("delete", o)

    async def replace(self, items, rv):
        self.op("replace", list(items), rv)

    async def resync(self):
        self.resyncs += 1
        if self.resync_fails and sa.flag("resync fails"):
            self.resync_failed = True
            raise Boom
        await self.slowly(self.sync_gate)


def same_log(a, b):
    if len(a) != len(b):
        return False
    for i in range(len(a)):
        if a[i][0] != b[i][0]:
            return False
        if a[i][0] == "replace":
            if len(a[i][1]) != len(b[i][1]) or not all([a[i][1][j] is b[i][1][j] for j in range(len(a[i][1]))]):
                return False
            if a[i][2] != b[i][2]:
                return False
        elif a[i][1] is not b[i][1]:
            return False
    return True


EVENTS = {"ADDED": "add", "MODIFIED": "update", "DELETED": "delete"}
KINDS = ("ADDED", "MODIFIED", "DELETED", "BOOKMARK", "WEIRD", "other type", "no metadata")
LISTED = "a list replaces the store's content with exactly the listed objects and their version"
STREAMED = "events call add, update and delete with their object, once, in stream order"
UNTOUCHED = "bookmarks, unknown events and foreign objects touch nothing"
VERSION = "last_sync_resource_version is the version of the last list or processed event"


def make_event(k, rv):
    """(event, expected store calls, expected version or None if it stays)"""
    kind = KINDS[k]
    if kind == "other type":
        return {"type": "ADDED", "object": Other("99")}, [], None
    if kind == "no metadata":
        return {"type": "MODIFIED", "object": NoMeta()}, [], None
    o = Sub(rv) if k == 1 else Thing(rv)
    calls = [(EVENTS[kind], o)] if kind in EVENTS else []
    return {"type": kind, "object": o}, calls, rv


async def r01_events():
    """Any stream of events, one or two at a time, store operations failing at will."""
    env = Env()
    typed = sa.flag("with expected type")
    r = reflector.Reflector(env, Thing if typed else None, env, 0)
    t = asyncio.ensure_future(r.list_and_watch())
    await sa.settle()
    items = [Thing("1"), Thing("2")][:sa.choose(3, "listed objects")]
    env.list_gate.give(Listing("L", items))
    await sa.settle()
    sa.check(same_log(env.log, [("replace", items, "L")]), LISTED)
    sa.check(r.last_sync_resource_version() == "L", VERSION)
    env.log = []
    env.watch_gate.give(None)
    env.fails = True
    rv = "L"
    flip = False
    weird = False
    items = None
    batches = 0
    while True:
        await sa.settle()
        await sa.point()
        sa.check(env.event.open() and not t.done(), "the watch goes on after every event")
        if batches == 2:
            # keep the number of events per watch finite, the number of watches is not
            batches = 0
            env.stream.backlog = [None]
            env.fails = False
            env.event.give({"type": "BOOKMARK", "object": Thing("a")})
            await sa.settle()
            env.fails = True
            rv = "a"
            flip = True
            weird = False
            sa.check(env.watch_gate.open(), "a watch that ends normally is re-opened without a list")
            env.asked = None
            env.watch_gate.give(None)
            continue
        batches += 1
        want = []
        evs = []
        n = 1 + sa.choose(2, "events at once")
        for _ in range(n):
            k = sa.choose(7, "event")
            sa.assume(typed or k != 5)
            flip = not flip
            e, calls, new = make_event(k, "a" if flip else "b")
            want.extend(calls)
            evs.append(e)
            if new is not None:
                weird = KINDS[k] == "WEIRD"
                if not weird:
                    rv = new
        s = env.stream
        s.backlog = evs[1:]
        env.event.give(evs[0])
        evs = None
        await sa.settle()
        sa.check(same_log(env.log, want), STREAMED if want else UNTOUCHED)
        if not weird:
            sa.check(r.last_sync_resource_version() == rv, VERSION)
        env.log = []
        want = None
        e = None
        calls = None


async def r01_gvk():
    """Dictionaries checked by group, version and kind."""
    env = Env()
    core = sa.flag("core API")
    gvk = schema.GroupVersionKind("", "v1", "Pod") if core else schema.GroupVersionKind("apps", "v1", "Deployment")
    r = reflector.Reflector(env, gvk, env, 0)
    t = asyncio.ensure_future(r.list_and_watch())
    await sa.settle()
    good = {"apiVersion": "v1", "kind": "Pod"} if core else {"apiVersion": "apps/v1", "kind": "Deployment"}
    env.list_gate.give({"metadata": {"resourceVersion": "L"}, "items": [good]})
    await sa.settle()
    sa.check(same_log(env.log, [("replace", [good], "L")]), LISTED)
    env.log = []
    env.watch_gate.give(None)
    await sa.settle()
    k = sa.choose(5, "object")
    o = dict(good)
    o["metadata"] = {"resourceVersion": "7", "name": "n"}
    if k == 1:
        o["kind"] = "Service"
    elif k == 2:
        o["apiVersion"] = "apps/v1" if core else "apps/v2"
    elif k == 3:
        o["apiVersion"] = "batch/v1"
    elif k == 4:
        o = Thing("7")
    kind = ("ADDED", "MODIFIED", "DELETED")[sa.choose(3, "event")]
    env.event.give({"type": kind, "object": o})
    await sa.settle()
    if k == 0:
        sa.check(same_log(env.log, [(EVENTS[kind], o)]), STREAMED)
        sa.check(r.last_sync_resource_version() == "7", VERSION)
    else:
        sa.check(env.log == [], UNTOUCHED)
        sa.check(r.last_sync_resource_version() == "L", VERSION)
    sa.check(env.event.open() and not t.done(), "the watch goes on after every event")


async def r01_error():
    """An ERROR event ends the watch; what came before it is stored, what comes after is not."""
    env = Env()
    r = reflector.Reflector(env, Thing, env, 0)
    t = asyncio.ensure_future(r.list_and_watch())
    await sa.settle()
    env.list_gate.give(Listing("L", []))
    await sa.settle()
    env.watch_gate.give(None)
    await sa.settle()
    env.log = []
    a, b = Thing("1"), Thing("2")
    env.stream.backlog = [{"type": "ERROR", "object": Thing("9") if sa.flag("typed error") else {"code": 410}},
                          {"type": "ADDED", "object": b}]
    env.event.give({"type": "ADDED", "object": a})
    await sa.settle()
    sa.check(t.done() and env.opened == 0, "an ERROR event ends the watch")
    sa.check(same_log(env.log, [("add", a)]), "events before the error are stored, later ones are not")
    sa.check(r.last_sync_resource_version() == "1", VERSION)


LIMIT = "every watch asks the server for a time limit of five to ten minutes"


class Limits(Env):
    """An environment that looks at the limits the reflector asks for."""

    async def list(self, options):
        sa.check("timeout_seconds" not in options, "a list asks for no time limit", options)
        return await Env.list(self, options)

    async def watch(self, options):
        sa.check("timeout_seconds" in options, LIMIT, options)
        n = options["timeout_seconds"]
        sa.check(sa.entail(n, ">=", 300) and sa.entail(n, "<=", 600), LIMIT, n)
        n = None
        return await Env.watch(self, options)


async def r03_limits():
    """Several watches after one list, and a new list."""
    env = Limits()
    r = reflector.Reflector(env, Thing, env, 0)
    t = asyncio.ensure_future(r.run())
    for _ in range(2):
        await sa.settle()
        env.list_gate.give(Listing("L", []))
        for _ in range(2):
            await sa.settle()
            env.watch_gate.give(None)
            await sa.settle()
            env.stream.backlog = [None]
            env.event.give({"type": "BOOKMARK", "object": Thing("b")})
        await sa.settle()
        env.watch_gate.give(None)
        await sa.settle()
        env.event.give("boom")
        await sa.settle()
        sa.check(not env.list_gate.open() and sa.timers() == 1, "a new list follows after a pause")
        sa.fire()
    await sa.settle()
    sa.check(env.list_gate.open() and not t.done(), "a new list follows after a pause")


async def r03():
    """The whole cycle: lists, watches, events and failures of every kind, for ever."""
    await cycle(False)


async def r04_run():
    """The same, cancelled at any moment."""
    await cycle(True)


async def cycle(cancel):
    env = Env()
    r = reflector.Reflector(env, Thing, env, 0)
    t = asyncio.ensure_future(until_end(env, r.run()))
    rv = ""
    expect = "list"
    paused = True
    flip = False
    events = 0
    seen = 0
    quick = True                   # the watch has lasted less than a second
    known = True                   # is rv known exactly
    await sa.settle()
    while True:
        await sa.point()
        sa.check(not t.done(), "run returns only by cancellation")
        if known:
            sa.check(r.last_sync_resource_version() == rv, VERSION)
        if cancel and sa.flag("cancel"):
            await cancel_here(t, env)
            return
        if env.list_gate.open():
            sa.check(expect == "list", "a watch that ends normally is re-opened without a list")
            sa.check(paused, "a failure is followed by a pause")
            sa.check(env.listed == "0", "every list asks for version 0")
            paused = False
            env.listed = None
            if sa.flag("list fails"):
                env.list_gate.fail()
                expect = "list"
            else:
                flip = not flip
                env.list_gate.give(Listing("A" if flip else "B", [Thing("1")]))
                env.fails = sa.flag("replace fails")
                if env.fails:
                    env.op = failing
                    expect = "list"
                else:
                    rv = "A" if flip else "B"
                    known = True
                    expect = "watch"
            if cancel and sa.flag("cancel before it goes on"):
                await cancel_here(t, env)
                return
            await sa.settle()
            env.op = passing
        elif env.watch_gate.open():
            sa.check(expect == "watch", "after a failure the objects are listed again")
            if known:
                sa.check(env.asked == rv, "a watch starts at the version of the last list or event")
            env.asked = None
            if sa.flag("watch fails"):
                env.watch_gate.fail()
                expect = "list"
            else:
                env.watch_gate.give(None)
                expect = "event"
                events = 0
                seen = 0
                quick = True
            if cancel and sa.flag("cancel before it goes on"):
                await cancel_here(t, env)
                return
            await sa.settle()
        elif env.event.open():
            sa.check(expect == "event", "only the open stream is read")
            sa.check(env.opened == 1, "the stream is open while it is read")
            k = sa.choose(7, "stream")
            sa.assume(k != 3 and k != 4 or seen < 2)
            seen = 0 if k != 3 and k != 4 else seen + 1
            if k == 0:
                env.event.give(None)
                expect = "watch" if events else ("list" if quick else "any")
            elif k == 1:
                env.event.give("boom")
                expect = "list"
            elif k == 2:
                env.event.give({"type": "ERROR", "object": Thing("9")})
                expect = "list"
            elif k == 3:
                flip = not flip
                v = "A" if flip else "B"
                env.event.give({"type": ("ADDED", "DELETED", "BOOKMARK")[sa.choose(3, "event")], "object": Thing(v)})
                rv = v
                events = 1
            elif k == 4:
                env.event.give({"type": "ADDED", "object": Other("99")})
                if not events:
                    events = 0
                    quick = False  # whether a skipped event counts is left open
            elif k == 5:
                sa.assume(quick)
                sa.advance(sa.num("wait", 1))
                quick = False
            else:
                # an event and the end of the stream in one go
                flip = not flip
                v = "A" if flip else "B"
                how = sa.choose(3, "end")
                env.stream.backlog = [(None, "boom", {"type": "ERROR", "object": Thing("9")})[how]]
                env.event.give({"type": "MODIFIED", "object": Thing(v)})
                rv = v
                expect = "list" if how else "watch"
            if cancel and sa.flag("cancel before it goes on"):
                await cancel_here(t, env)
                return
            await sa.settle()
            if expect == "any":
                expect = "watch" if env.watch_gate.open() else "list"
        else:
            sa.check(expect == "list", "the reflector goes on as long as its source delivers")
            sa.check(env.opened == 0, "the stream of an ended watch is closed")
            sa.check(not running(), "a finished cycle leaves nothing running")
            t0 = sa.now()
            sa.check(sa.fire(), "the reflector goes on as long as its source delivers")
            paused = sa.entail(sa.now(), ">", t0)
            t0 = None
            await sa.settle()
        env.log = []
        if expect == "watch" and not env.watch_gate.open():
            sa.fail("the reflector goes on as long as its source delivers")
        if expect == "event" and not env.event.open():
            sa.fail("the reflector goes on as long as its source delivers")


def failing(*what):
    raise Boom


def passing(*what):
    pass


async def until_end(env, aw):
    """Notes whether the stream was closed when the operation ended."""
    try:
        return await aw
    finally:
        env.left = env.opened
        sa.check(env.busy == 0, "when a cycle has ended nothing of it is at work any more", env.busy)


async def cancel_here(t, env, whole=True):
    for _ in range(sa.choose(4, "turns before the cancellation")):
        await asyncio.sleep(0)
    t.cancel()
    await sa.settle()
    if whole:
        sa.check(t.done() and t.cancelled(), "cancelling run reaches the caller")
    else:
        sa.check(t.done(), "cancelling ends the cycle")
    sa.check(not running(), "a cancelled cycle leaves no task running")
    sa.check(env.left == 0, "a cancelled cycle closes the stream")
    sa.check(sa.timers() == 0, "a cancelled cycle leaves no timer")


async def r04_cycle():
    """list_and_watch with a resync period, ended in every way."""
    env = Env()
    env.resync_fails = True
    period = sa.num("period", 0, lo_open=True)
    r = reflector.Reflector(env, Thing, env, period if sa.flag("with resync") else 0)
    t = asyncio.ensure_future(until_end(env, r.list_and_watch()))
    steps = 0
    while True:
        await sa.settle()
        await sa.point()
        if t.done():
            sa.check(not running(), "a finished cycle leaves no task running")
            sa.check(env.left == 0, "a finished cycle closes the stream")
            sa.check(sa.timers() == 0, "a finished cycle leaves no timer")
            return
        if sa.flag("cancel"):
            await cancel_here(t, env, False)
            return
        if env.list_gate.open():
            if sa.flag("list fails"):
                env.list_gate.fail()
            else:
                env.list_gate.give(Listing("L", []))
        elif env.watch_gate.open():
            steps = 0
            if sa.flag("watch fails"):
                env.watch_gate.fail()
            else:
                env.watch_gate.give(None)
        else:
            k = sa.choose(5, "stream or time")
            sa.assume(k < 3 or steps < 2)
            steps += 1
            if k == 0:
                env.event.give(None)
            elif k == 1:
                env.event.give("boom")
            elif k == 2:
                env.event.give({"type": "ERROR", "object": Thing("9")})
            elif k == 3:
                env.event.give({"type": "ADDED", "object": Thing("L")})
            else:
                sa.assume(sa.timers() > 0)
                sa.fire()
        if sa.flag("cancel before it goes on"):
            await cancel_here(t, env, False)
            return
        env.log = []
        env.resyncs = 0
        env.asked = None


async def r04_slow():
    """A store that takes its time, also to end what was cancelled."""
    env = Env()
    env.op_gate, env.sync_gate = Gate(), Gate()
    r = reflector.Reflector(env, Thing, env, 5)
    t = asyncio.ensure_future(until_end(env, r.list_and_watch()))
    await sa.settle()
    env.list_gate.give(Listing("L", []))
    await sa.settle()
    GOES = "the reflector goes on as long as its source delivers"
    if sa.flag("a resync before the watch"):
        sa.check(sa.fire(), GOES)
        await sa.settle()
        sa.check(env.sync_gate.open(), "a resync is due every period")
    if sa.flag("watch fails"):
        env.watch_gate.fail()
        await sa.settle()
        return ended(t, env)
    env.watch_gate.give(None)
    await sa.settle()
    more = False
    for turn in range(6):
        await sa.settle()
        await sa.point()
        env.log = []
        env.resyncs = 0
        sa.check(not t.done() and (env.event.open() or env.op_gate.open()), GOES)
        k = sa.choose(7, "step") if turn < 5 else 6
        if k == 0:
            sa.assume(env.event.open() and not more)
            more = env.op_gate.open()
            env.event.give({"type": "ADDED", "object": Thing("1")})
        elif k == 1:
            sa.assume(not env.sync_gate.open())
            sa.check(sa.fire(), "a resync is due every period")
            await sa.settle()
            sa.check(env.sync_gate.open(), "a resync is due every period")
        elif k == 2:
            sa.assume(env.op_gate.open())
            env.op_gate.give(None)
            more = False
        elif k == 3:
            sa.assume(env.sync_gate.open())
            env.sync_gate.give(None)
        elif k == 4:
            sa.assume(env.sync_gate.open())
            env.sync_gate.fail()
            for _ in range(sa.choose(3, "turns")):
                await asyncio.sleep(0)
            await finish(env)
            return ended(t, env)
        elif k == 5:
            sa.assume(env.event.open())
            env.event.give(("boom", {"type": "ERROR", "object": Thing("9")})[sa.choose(2, "end")])
            await finish(env)
            return ended(t, env)
        else:
            for _ in range(sa.choose(3, "turns")):
                await asyncio.sleep(0)
            t.cancel()
            await sa.settle()
            sa.check(t.done() and t.cancelled(), "cancelling ends the cycle")
            return ended(t, env)


async def finish(env):
    for _ in range(4):
        await sa.settle()
        if env.op_gate.open():
            env.op_gate.give(None)
    await sa.settle()


def ended(t, env):
    sa.check(t.done(), "the cycle ends")
    sa.check(not running(), "a finished cycle leaves no task running", origins(running()))
    sa.check(env.left == 0, "a finished cycle closes the stream")
    sa.check(sa.timers() == 0, "a finished cycle leaves no timer")


async def r05():
    """Resync obeys period and gate, for ever."""
    env = Env()
    period = sa.num("period", 0, lo_open=True)
    r = reflector.Reflector(env, Thing, env, period)
    gated = sa.flag("with should_resync")
    asked = []

    def gate():
        ok = sa.flag("resync is due")
        asked.append(ok)
        return ok
    if gated:
        r.should_resync = gate
    t = asyncio.ensure_future(r.list_and_watch())
    await sa.settle()
    env.list_gate.give(Listing("L", []))
    await sa.settle()
    start = sa.now()
    env.watch_gate.give(None)
    await sa.settle()
    env.log = []
    steps = 0
    while True:
        await sa.point()
        sa.check(env.resyncs == 0, "the store is not resynced before the period is over")
        sa.check(not t.done() and env.event.open(), "a resync does not disturb the watch")
        if steps == 3:
            env.stream.backlog = [None]
            env.event.give({"type": "BOOKMARK", "object": Thing("L")})
            await sa.settle()
            sa.check(env.watch_gate.open(), "a watch that ends normally is re-opened without a list")
            env.watch_gate.give(None)
            await sa.settle()
            steps = 0
            continue
        steps += 1
        if sa.flag("an event arrives"):
            env.event.give({"type": "ADDED", "object": Thing("L")})
            await sa.settle()
            env.log = []
            continue
        sa.check(sa.fire(), "the next resync period is always armed")
        await sa.settle()
        sa.check(sa.entail(sa.now() - start, "==", period), "resyncs are one period apart")
        start = sa.now()
        if gated:
            sa.check(len(asked) == 1, "the should-resync function is asked once per period")
            sa.check(env.resyncs == (1 if asked and asked[0] else 0),
                     "the store is resynced if and only if the should-resync function says so")
        else:
            sa.check(env.resyncs == 1, "without a should-resync function the store is resynced every period")
        env.resyncs = 0
        del asked[:]


async def r05_error():
    """A failing resync ends the watch, at whatever moment it fails, and a list follows."""
    env = Env()
    period = sa.num("period", 0, lo_open=True)
    r = reflector.Reflector(env, Thing, env, period)
    t = asyncio.ensure_future(r.run())
    await sa.settle()
    env.list_gate.give(Listing("L", []))
    await sa.settle()
    where = sa.choose(3, "during")
    if where > 0:
        env.watch_gate.give(None)
        await sa.settle()
    env.op = passing
    env.resync_fails = True
    env.resyncs = 0
    sa.check(sa.fire(), "the resync period is armed from the list on")
    if where == 2:
        env.event.give({"type": "ADDED", "object": Thing("A")})
        await sa.settle()
        if sa.flag("stream ends too"):
            sa.assume(env.event.open())
            env.event.give(None)
    await sa.settle()
    sa.check(env.resyncs == 1, "without a should-resync function the store is resynced every period")
    n = 0
    while not env.list_gate.open():
        # a watch being opened meanwhile is given, and ends at once with the error
        if env.watch_gate.open():
            sa.assume(n < 3)
            n += 1
            env.watch_gate.give(None)
        elif env.event.open():
            sa.check(not env.resync_failed, "a failed resync is followed by a new list")
            return
        else:
            sa.check(sa.fire(), "a failed resync is followed by a new list")
        await sa.settle()
    sa.check(True, "a failed resync is followed by a new list")


async def r05_none():
    """Without a period nothing is ever armed."""
    env = Env()
    r = reflector.Reflector(env, Thing, env, (0, None)[sa.choose(2, "period")])
    t = asyncio.ensure_future(r.list_and_watch())
    await sa.settle()
    env.list_gate.give(Listing("L", []))
    await sa.settle()
    env.watch_gate.give(None)
    await sa.settle()
    sa.check(sa.timers() == 0 and env.resyncs == 0, "without a period the store is never resynced")
    sa.check(env.event.open() and not t.done(), "without a period the watch goes on")
