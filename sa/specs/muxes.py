"""Drivers for the broadcaster and the fake watcher."""
import asyncio
import sa
from aiok8s.watch import mux, watch
from specs.common import *

ORDER = "a watcher receives exactly the events published after its registration, in order"
LIVE = "an event reaches every watcher that asks for it"
KEPT = "a watcher misses no event"
ENDS = "stopping ends the iteration"
TYPE = "an event arrives with its type and object"


class Ev(Falsy):
    pass


class W:
    """One watcher and what it has to receive."""

    def __init__(self):
        self.w = None
        self.want = []             # [type, object], oldest first
        self.ask = None
        self.stopped = False
        self.down = False
        self.ended = False
        self.cap = 0

    async def get(self):
        try:
            e = await self.w.__anext__()
        except StopAsyncIteration:
            self.ended = True
            sa.check(self.stopped or self.down, "the iteration ends only when it was stopped")
            if not self.stopped:
                sa.check(not self.want, "shutdown delivers what was published before it")
            return
        sa.check(len(self.want) > 0, ORDER)
        x = self.want.pop(0)
        sa.check(e["type"] == x[0] and e["object"] is x[1], TYPE if e["object"] is x[1] else ORDER)

    def asking(self):
        return self.ask is not None and not self.ask.done()


class Bus:
    def __init__(self, length, mode, limit, watchers):
        self.length = length
        self.drop = mode
        self.b = mux.Broadcaster(length, mux.FullChannelBehavior.DROP_IF_CHANNEL_FULL if mode
                                 else mux.FullChannelBehavior.WAIT_IF_CHANNEL_FULL)
        self.ws = []
        self.max = watchers
        self.limit = limit
        self.acts = []
        self.joins = []
        self.stops = []
        self.down = None

    def next_event(self):
        return ["ADDED", Ev()]

    async def join(self, w, prefix):
        if prefix is None:
            w.w = await self.b.watch()
        else:
            w.w = await self.b.watch_with_prefix([{"type": t, "object": o} for t, o in prefix])

    def publish(self):
        e = self.next_event()
        for w in self.ws:
            if w.stopped or w.down:
                continue
            if self.drop and self.length and len(w.want) >= w.cap and not w.asking():
                continue
            sa.assume(len(w.want) < self.limit)
            w.want.append(e)
        self.acts.append(asyncio.ensure_future(self.b.action(e[0], e[1])))

    def quiet(self):
        """Nothing holds the broadcaster back: every watcher that is still there is asking."""
        for w in self.ws:
            if not w.stopped and not w.ended and not w.asking():
                return False
        return True

    def state(self):
        for x in self.acts + self.joins + self.stops:
            if x.done():
                x.result()
        self.joins = [x for x in self.joins if not x.done()]
        self.acts = [x for x in self.acts if not x.done()]
        self.stops = [x for x in self.stops if not x.done()]
        for w in self.ws:
            if w.ask is not None and w.ask.done():
                if not w.ask.cancelled():
                    w.ask.result()
                w.ask = None
            if w.w is not None and w.stopped and w.asking():
                sa.fail(ENDS)
        if self.quiet() or self.drop:
            for w in self.ws:
                if w.asking() and w.want:
                    sa.fail(LIVE)
            sa.check(not self.acts, "publishing goes on when no watcher holds it back" if not self.drop
                     else "publishing never waits for a watcher in dropping mode")
            sa.check(not self.joins, "registration goes on when no watcher holds it back")
            sa.check(not self.stops, "stopping a watcher returns when no other watcher holds it back")
            if self.down is not None:
                sa.check(self.down.done(), "shutdown returns once everything was delivered")
        if self.down is not None and self.down.done():
            for w in self.ws:
                if w.asking():
                    sa.fail("shutdown ends the iteration of every watcher")

    def present(self):
        return [w for w in self.ws if w.w is not None]


async def wait_mode(length, watchers, limit, cancel, down, stops=True, drop=False, prefixes=True, races=True, burst=1):
    bus = Bus(length, drop, limit, watchers)
    await sa.settle()
    regs = 0
    while True:
        bus.state()
        await sa.point()
        live = [w for w in bus.ws if not w.ended]
        k = sa.choose(6, "operation")
        sa.assume(bus.down is None or k == 2)
        if k == 0:
            for _ in range(1 + sa.choose(burst, "events at once")):
                sa.assume(len(bus.acts) < limit)
                bus.publish()
        elif k == 1:
            sa.assume(len(bus.ws) < watchers)
            w = W()
            w.cap = length
            prefix = None
            n = sa.choose(3 if prefixes else 1, "prefix")
            if n:
                prefix = [bus.next_event() for _ in range(n - 1)]
                w.want = list(prefix)
                w.cap = max(length, n)
            bus.ws.append(w)
            bus.joins.append(asyncio.ensure_future(bus.join(w, prefix)))
            w = None
        elif k == 2:
            ready = [w for w in bus.ws if w.w is not None and not w.ended and w.ask is None]
            sa.assume(len(ready) > 0)
            w = ready[sa.choose(len(ready), "watcher")]
            w.ask = asyncio.ensure_future(w.get())
        elif k == 3:
            sa.assume(stops)
            ready = [w for w in bus.ws if w.w is not None and not w.stopped]
            sa.assume(len(ready) > 0)
            w = ready[sa.choose(len(ready), "watcher to stop")]
            w.stopped = True
            bus.stops.append(asyncio.ensure_future(w.w.stop()))
            if sa.flag("twice"):
                bus.stops.append(asyncio.ensure_future(w.w.stop()))
        elif k == 4:
            sa.assume(cancel)
            ready = [w for w in bus.ws if w.asking()]
            sa.assume(len(ready) > 0)
            w = ready[sa.choose(len(ready), "watcher")]
            w.ask.cancel()
        else:
            sa.assume(down)
            for w in bus.ws:
                w.down = True
            bus.down = asyncio.ensure_future(bus.b.shutdown())
        ready = None
        w = None
        live = None
        if sa.flag("let it run"):
            await sa.settle()
        else:
            sa.assume(not drop and races)
            await asyncio.sleep(0)
            if sa.flag("another turn"):
                await asyncio.sleep(0)
            # bring it to rest before looking
            w = None
            j = sa.choose(3, "meanwhile")
            if j == 0:
                sa.assume(bus.down is None and len(bus.acts) < limit)
                bus.publish()
            elif j == 1:
                sa.assume(cancel)
                ready = [x for x in bus.ws if x.asking()]
                sa.assume(len(ready) > 0)
                ready[0].ask.cancel()
                ready = None
            else:
                sa.assume(stops)
                ready = [x for x in bus.ws if x.w is not None and not x.stopped]
                sa.assume(len(ready) > 0)
                ready[0].stopped = True
                bus.stops.append(asyncio.ensure_future(ready[0].w.stop()))
                ready = None
            await sa.settle()


async def m01_one():
    await wait_mode(1, 1, 3, True, False, False)


async def m01_rendezvous():
    await wait_mode(0, 1, 2, True, False, False)


async def m01_two():
    await wait_mode(1, 2, 2, False, False, False, False, False)


async def m01_two_rendezvous():
    await wait_mode(0, 2, 2, False, False, False, False, False)


async def m01_stop():
    await wait_mode(1, 2, 2, False, False, True, False, False, False)


async def m01_stop_small():
    await wait_mode(1, 2, 1, False, False, True, False, False, False)


async def m01_three():
    await wait_mode(1, 3, 1, False, False, False, False, False, False)


async def m01_longer():
    await wait_mode(2, 1, 4, True, False, False)


async def m01_types():
    """Every kind of event, published by several tasks, arrives as it was published."""
    mode = sa.flag("dropping")
    b = mux.Broadcaster(sa.choose(2, "length") + 4 * mode, mux.FullChannelBehavior.DROP_IF_CHANNEL_FULL if mode
                        else mux.FullChannelBehavior.WAIT_IF_CHANNEL_FULL)
    prefix = [{"type": watch.EventType.DELETED, "object": Ev()}, {"type": watch.EventType.ADDED, "object": Ev()}]
    a = await must("registration returns", b.watch())
    c = await must("registration returns", b.watch_with_prefix(prefix))
    types = (watch.EventType.ADDED, watch.EventType.MODIFIED, watch.EventType.DELETED, watch.EventType.ERROR,
             watch.EventType.BOOKMARK)
    sent = [(types[sa.choose(5, "type")], Ev()) for _ in range(2)]

    async def consume(w, n, out):
        async with w:
            async for e in w:
                out.append(e)
                if len(out) == n:
                    break
    outa, outc = [], []
    ts = [asyncio.ensure_future(consume(a, 2, outa)), asyncio.ensure_future(consume(c, 4, outc))]
    for t, o in sent:
        await must("publishing returns", b.action(t, o))
    await sa.settle()
    sa.check(ts[0].done() and ts[1].done(), "leaving the watcher's context returns", mode, a._result.maxsize, len(outa), len(outc), ts[0].done(), ts[1].done(), sa.blocked_in())
    await must("shutdown returns", b.shutdown())
    sa.check(len(outa) == 2 and len(outc) == 4, KEPT)
    for i in (0, 1):
        sa.check(outa[i]["type"] == sent[i][0] and outa[i]["object"] is sent[i][1], TYPE)
        sa.check(outc[i]["type"] == prefix[i]["type"] and outc[i]["object"] is prefix[i]["object"], TYPE)
        sa.check(outc[i + 2]["type"] == sent[i][0] and outc[i + 2]["object"] is sent[i][1], TYPE)


# ------------------------------------------------------------------ fake watcher
FAKE = "a fake watcher delivers each event once, in order, with the type of the method used"
TAKEN = "the sender resumes exactly when its event was taken"


class Fake:
    def __init__(self):
        self.w = watch.new_fake()
        self.sent = []             # [type, object, task]
        self.ask = None
        self.got = []
        self.ended = False

    async def get(self):
        try:
            e = await self.w.__anext__()
        except StopAsyncIteration:
            self.ended = True
            return
        sa.check(len(self.sent) > 0, FAKE)
        x = self.sent.pop(0)
        self.got.append(x[2])
        sa.check(e["type"] == x[0] and e["object"] is x[1], FAKE)

    def send(self, k):
        o = Ev()
        T = watch.EventType
        if k == 0:
            t, aw = T.ADDED, self.w.add(o)
        elif k == 1:
            t, aw = T.MODIFIED, self.w.modify(o)
        elif k == 2:
            t, aw = T.DELETED, self.w.delete(o)
        elif k == 3:
            t, aw = T.ERROR, self.w.error(o)
        else:
            t, aw = T.BOOKMARK, self.w.action(T.BOOKMARK, o)
        self.sent.append([t, o, asyncio.ensure_future(aw)])


async def m04():
    f = Fake()
    await sa.settle()
    stopped = False
    while True:
        await sa.point()
        for t in f.got:
            sa.check(t.done(), TAKEN)
            t.result()
        f.got = []
        for x in f.sent:
            sa.check(not x[2].done(), TAKEN)
        asking = f.ask is not None and not f.ask.done()
        if f.ask is not None and f.ask.done():
            f.ask.result()
            f.ask = None
        if asking:
            sa.check(not f.sent, "an event reaches the consumer that waits for it")
            sa.check(not stopped, "stop ends the iteration")
        sa.check(f.w.is_stopped() == stopped, "is_stopped tells whether it was stopped")
        if f.ended:
            sa.check(stopped, "the iteration ends only when it was stopped")
        k = sa.choose(5, "operation")
        if k == 0:
            sa.assume(len(f.sent) < 2 and not stopped)
            f.send(sa.choose(5, "method"))
        elif k == 1:
            sa.assume(not asking and not f.ended)
            f.ask = asyncio.ensure_future(f.get())
        elif k == 2:
            await must("stop returns", f.w.stop())
            stopped = True
        elif k == 3:
            sa.assume(not f.sent and not asking and stopped)
            await must("reset returns", f.w.reset())
            stopped = False
            f.ended = False
        else:
            sa.assume(not asking and not f.ended and not stopped and len(f.sent) == 1)
            # consumer and next sender at the same moment
            f.ask = asyncio.ensure_future(f.get())
            f.send(0)
        if sa.flag("let it run"):
            await sa.settle()
        else:
            sa.assume(k == 1 and not stopped)
            f.send(1)
            await sa.settle()


async def m04_context():
    """Used as a context manager and iterator by the library's reflector."""
    w = watch.new_fake()
    out = []

    async def consume():
        async with w:
            async for e in w:
                out.append(e)
                if len(out) == 2 and sa.flag("leave early"):
                    break
    t = asyncio.ensure_future(consume())
    a, b = Ev(), Ev()
    await must("add returns", w.add(a))
    await must("modify returns", w.modify(b))
    await sa.settle()
    sa.check(len(out) == 2 and out[0]["object"] is a and out[1]["object"] is b, FAKE)
    if not t.done():
        await must("stop returns", w.stop())
        await sa.settle()
    sa.check(t.done() and w.is_stopped(), "stop ends the iteration")
    await must("stop returns", w.stop())


async def m01_stop_rendezvous():
    await wait_mode(0, 2, 1, False, False, True, False, False, False)


async def m03_stop_race():
    await wait_mode(1, 1, 2, False, False, True, False, False)


async def m03_stop_race_rendezvous():
    await wait_mode(0, 1, 2, False, False, True, False, False)


async def m03_all():
    await wait_mode(1, 1, 2, False, True, True, False, True)


async def m03_down():
    await wait_mode(1, 2, 2, False, True, False, False, False)


async def m03_down_rendezvous():
    await wait_mode(0, 2, 2, False, True, False, False, False)


async def m02():
    await wait_mode(1, 2, 3, False, False, False, True, False)


async def m02_two():
    await wait_mode(2, 1, 3, False, False, True, True, False)


async def m02_prefix():
    await wait_mode(1, 1, 3, False, True, True, True, True)


async def m03_full():
    """More events at once than the broadcaster's own queue holds."""
    asyncio._CAP[0] = 1
    await wait_mode(0, 1, 3, False, False, True, False, False, False, 3)


async def m01_full():
    asyncio._CAP[0] = 1
    await wait_mode(1, 1, 4, False, False, False, False, False, False, 3)


async def m01_full_two():
    asyncio._CAP[0] = 1
    await wait_mode(0, 2, 3, False, False, False, False, False, False, 3)


async def m03_full_down():
    asyncio._CAP[0] = 1
    await wait_mode(0, 1, 3, False, True, False, False, False, False, 3)


async def m02_full():
    asyncio._CAP[0] = 1
    await wait_mode(2, 1, 2, False, True, False, True, False, True, 2)


class Leave(Exception):
    pass


async def m03_context():
    """A watcher used as a context manager holds nobody back once the block was left, however it was left."""
    b = mux.Broadcaster(sa.choose(2, "length"), mux.FullChannelBehavior.WAIT_IF_CHANNEL_FULL)
    w = await must("registration returns", b.watch())
    other = await must("registration returns", b.watch())
    way = sa.choose(4, "way out")
    seen = sa.choose(2, "events before leaving")
    got, out = [], []

    async def consume():
        async with w as x:
            sa.check(x is w, "the block gets the watcher itself")
            if not seen and way < 2:
                if way == 1:
                    raise Leave()
                return
            async for e in x:
                got.append(e)
                if len(got) == seen:
                    if way == 0:
                        break
                    if way == 1:
                        raise Leave()

    async def read():
        async for e in other:
            out.append(e)
    r = asyncio.ensure_future(read())
    t = asyncio.ensure_future(consume())
    await sa.settle()
    sent = [Ev() for _ in range(5)]
    n = 0
    if seen:
        await must("publishing returns", b.action("ADDED", sent[0]))
        await sa.settle()
        sa.check(len(got) == 1 and got[0]["object"] is sent[0], KEPT)
        n = 1
    if way == 2:
        t.cancel()
    elif way == 3:
        await must("stop returns", w.stop())
    await sa.settle()
    sa.check(t.done(), "leaving the watcher's context returns")
    if way == 1:
        sa.check(isinstance(t.exception(), Leave), "the block's own exception gets through")
    elif way == 2:
        sa.check(t.cancelled(), "cancelling gets through")
    else:
        t.result()
    while n < 5:
        await must("publishing goes on after a watcher's block was left", b.action("ADDED", sent[n]))
        n += 1
    await sa.settle()
    sa.check(len(out) == 5, "the other watchers go on after a watcher's block was left")
    for i in range(5):
        sa.check(out[i]["object"] is sent[i], ORDER)
    try:
        await w.__anext__()
    except StopAsyncIteration:
        pass
    else:
        sa.fail("a watcher whose block was left is stopped")
    await must("shutdown returns", b.shutdown())
    await sa.settle()
    sa.check(r.done(), "shutdown ends the iteration of every watcher")


async def m01_pressure():
    """A watcher that does not read holds the publishers back: what is buffered for it is bounded."""
    asyncio._CAP[0] = 1
    n = sa.choose(3, "length")
    b = mux.Broadcaster(n, mux.FullChannelBehavior.WAIT_IF_CHANNEL_FULL)
    prefix = [{"type": "ADDED", "object": Ev()} for _ in range(sa.choose(3, "prefix"))]
    w = await must("registration returns", b.watch_with_prefix(list(prefix)) if prefix else b.watch())
    sent = [Ev() for _ in range(9)]
    done = []

    async def publish():
        for e in sent:
            await b.action("ADDED", e)
            done.append(e)
    t = asyncio.ensure_future(publish())
    await sa.settle()
    sa.check(not t.done(), "publishing waits when a watcher does not read")
    first = len(done)
    sa.check(first >= n, "publishing goes on while the watcher's queue has room")
    want = [e["object"] for e in prefix] + sent
    for i in range(len(want)):
        e = await must(LIVE, w.__anext__())
        sa.check(e["object"] is want[i], ORDER)
        await sa.settle()
        sa.check(t.done() or len(done) <= i + 1 + first, "publishing waits when a watcher does not read")
    sa.check(t.done(), "publishing goes on when no watcher holds it back")
    t.result()


async def m01_readers():
    """Several tasks read from one watcher: every event goes to one of them, in order."""
    n = sa.pick(0, 1, 3)
    b = mux.Broadcaster(n, mux.FullChannelBehavior.WAIT_IF_CHANNEL_FULL)
    w = await must("registration returns", b.watch())
    other = await must("registration returns", b.watch()) if sa.flag("another watcher") else None
    asks = [asyncio.ensure_future(w.__anext__()) for _ in range(3)]
    if sa.flag("waiting before"):
        await sa.settle()
    sent = [Ev() for _ in range(5)]
    got = []

    async def publish():
        for e in sent:
            await b.action("A", e)
    p = asyncio.ensure_future(publish())
    gone = sa.choose(4, "cancelled")
    for step in range(8):
        await sa.settle()
        if other is not None and step < 5:
            e = await must(LIVE, other.__anext__())
            sa.check(e["object"] is sent[step], ORDER)
            await sa.settle()
        if step == 0 and gone < 3 and not asks[gone].done():
            asks[gone].cancel()
            await sa.settle()
        for t in list(asks):
            if t.done():
                asks.remove(t)
                if not t.cancelled():
                    got.append(t.result()["object"])
                if len(asks) < 2 and len(got) + len(asks) < 7:
                    asks.append(asyncio.ensure_future(w.__anext__()))
    await sa.settle()
    sa.check(p.done(), "publishing goes on when no watcher holds it back")
    sa.check(len(got) == 5 and all([len([x for x in got if x is e]) == 1 for e in sent]), ORDER, len(got))
    await must("stop returns", w.stop())
    await sa.settle()
    sa.check(len(asks) > 0 and all([t.done() and isinstance(t.exception(), StopAsyncIteration) for t in asks]), ENDS)
