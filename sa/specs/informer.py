"""Drivers for the plain and the shared informer; the drivers play the API server."""
import asyncio
import sa
from aiok8s.cache import controller, delta_fifo, fifo, shared_informer, store
from specs.common import *
from specs.reflect import Boom, Env, Gate


class Meta(Full):
    def __init__(self, name, resource_version):
        self.resource_version = resource_version
        self.name = name
        self.namespace = "ns"


class Thing(Falsy):
    def __init__(self, name, rv):
        self.metadata = Meta(name, rv)


class ListMeta(Full):
    def __init__(self):
        self.resource_version = "L"


class Listing:
    def __init__(self, items):
        self.metadata = ListMeta()
        self.items = items


NAMES = ("x", "X")
KEYS = ("ns/x", "ns/X")
STORE_FIRST = "when a handler is told of a change the store already reflects it"
RIGHT = "additions give on_add, changes on_update with the old and the new object, deletions on_delete"
NONE_LOST = "every handler is told of every change"
IN_ORDER = "a handler is told one change at a time"


def name_of(o):
    return o.metadata.name


class Handler:
    """A handler that knows what it has to be told."""

    def __init__(self, w, plain, mode="quick"):
        self.w = w
        self.plain = plain         # the plain informer waits for its handler
        self.want = [[], []]       # by object: ["add", new] / ["update", old, new] / ["delete", old] / ["sync", old, new]
        self.on = 0
        self.mode = mode           # quick, slow or failing
        self.gate = Gate()
        self.muted = False
        self.syncs = 0
        self.failed = False

    def funcs(self):
        return controller.ResourceEventHandlerFuncs(self.add, self.update, self.delete)

    def expect(self, i, *what):
        self.want[i].append(list(what))

    async def told(self, i, *what):
        sa.check(not self.muted, "a stopped informer delivers nothing further", what[0])
        sa.check(self.on == 0, IN_ORDER)
        self.on += 1
        try:
            want = self.want[i]
            # an unchanged object that was listed again may be told or not
            while want and want[0][0] == "sync" and not (what[0] == "update" and want[0][2] is what[2]):
                want.pop(0)
            sa.check(len(want) > 0, "a handler is told of each change once", what[0])
            first = want.pop(0)
            if first[0] != "sync":
                self.w.told(self, what[-1])
            kind = "update" if first[0] == "sync" else first[0]
            # which state of an object found missing by a list is told is left open
            sa.check(kind == what[0] and all([first[j] is what[j] or first[j] is None for j in range(1, len(first))]), RIGHT, first, what)
            stored = self.w.get(KEYS[i])
            last = what[-1] if what[0] != "delete" else None
            # a shared informer may be ahead of its handlers
            later = [x[-1] if x[0] != "delete" else None for x in want] if not self.plain else []
            sa.check(any([stored is x for x in [last] + later]), STORE_FIRST, what[0])
            first = want = stored = last = later = None
            if self.mode == "slow":
                await self.gate.wait()
            elif self.mode == "failing":
                await asyncio.sleep(0)
                self.failed = sa.flag("handler fails")
                if self.failed:
                    raise Boom
        finally:
            self.on -= 1

    async def add(self, o):
        await self.told(NAMES.index(name_of(o)), "add", o)

    async def update(self, old, new):
        sa.check(name_of(old) == name_of(new), RIGHT)
        await self.told(NAMES.index(name_of(new)), "update", old, new)

    async def delete(self, o):
        if isinstance(o, delta_fifo.DeletedFinalStateUnknown):
            sa.check(o.key == KEYS[NAMES.index(name_of(o.obj))], "a tombstone names the key of its object", o.key)
            o = o.obj
        await self.told(NAMES.index(name_of(o)), "delete", o)

    def complete(self):
        return all([not w or all([x[0] == "sync" for x in w]) for w in self.want])

    def drop(self):
        """Forget what may be told but need not."""
        for w in self.want:
            while w and w[0][0] == "sync":
                w.pop(0)


class Frozen:
    """A clock that stands still, for drivers without resyncs."""

    def now(self):
        return 100.5

    def since(self, ts):
        return 100.5 - ts

    def new_timer(self, d):
        return VTimer(d)


class World:
    def __init__(self, shared):
        self.env = Env()
        self.shared = shared
        self.now = [None, None]    # the objects on the server, as sent
        self.handlers = []
        self.store = None
        self.inf = None
        self.t = None
        self.order = []            # the objects one handler was told of and the other not yet
        self.ahead = None
        self.unversioned = False
        self.check = None          # the period at which resyncs are considered

    def told(self, h, o):
        """All handlers are told of the changes in one order."""
        if len(self.handlers) != 2:
            return
        if self.ahead is h or not self.order:
            self.ahead = h
            self.order.append(name_of(o))
        else:
            sa.check(self.order[0] == name_of(o), "a handler is told of changes in the order they were stored", o)
            self.order.pop(0)

    def get(self, key):
        if self.shared:
            return self.inf.get_indexer().get_by_key(key)
        return self.store.get_by_key(key)

    def handler(self, mode="quick"):
        h = Handler(self, not self.shared, mode)
        self.handlers.append(h)
        return h

    async def make(self, period=0, mode="quick", n=1):
        if self.shared:
            self.inf = shared_informer.new_shared_informer(self.env, Thing, period)
            if not period:
                self.inf._clock = self.inf._processor._clock = Frozen()
            for _ in range(n):
                await self.inf.add_event_handler(self.handler(mode).funcs())
        else:
            self.store, self.inf = controller.new_informer(self.env, Thing, period, self.handler(mode).funcs())

    def go(self):
        self.t = asyncio.ensure_future(self.whole())

    async def whole(self):
        try:
            return await self.inf.run()
        finally:
            for h in self.handlers:
                sa.check(h.on == 0, "when run has ended no handler is at work any more")
                h.muted = True

    def expect(self, i, *what):
        for h in self.handlers:
            h.expect(i, *what)

    def fresh(self, i):
        old = self.now[i]
        if self.unversioned:
            return Thing(NAMES[i], None)
        return Thing(NAMES[i], "1" if old is None or old.metadata.resource_version == "2" else "2")

    def give_list(self, choices):
        """choices, by object: 0 absent, 1 as it was, 2 changed or new."""
        items = []
        for i in (0, 1):
            old = self.now[i]
            c = choices[i]
            if c == 0:
                if old is not None:
                    self.expect(i, "delete", None)
                    self.now[i] = None
                continue
            if c == 1:
                sa.assume(old is not None)
                new = Thing(NAMES[i], old.metadata.resource_version)
            else:
                new = self.fresh(i)
            if old is None:
                self.expect(i, "add", new)
            else:
                self.expect(i, "sync" if c == 1 else "update", old, new)
            self.now[i] = new
            items.append(new)
        self.env.list_gate.give(Listing(items))

    def send(self, i, gone):
        """One change on the server, as a watch event."""
        old = self.now[i]
        if gone:
            sa.assume(old is not None)
            last = Thing(NAMES[i], "9")
            self.expect(i, "delete", last)
            self.now[i] = None
            e = {"type": "DELETED", "object": last}
        else:
            new = self.fresh(i)
            if old is None:
                self.expect(i, "add", new)
            else:
                self.expect(i, "update", old, new)
            self.now[i] = new
            e = {"type": "ADDED" if old is None else "MODIFIED", "object": new}
        self.push(e)

    def push(self, e):
        if self.env.event.open():
            self.env.event.give(e)
        else:
            sa.assume(self.env.stream is not None)
            self.env.stream.backlog.append(e)

    def check_store(self):
        for i in (0, 1):
            sa.check(self.get(KEYS[i]) is self.now[i], "the store holds the objects of the server", KEYS[i])

    def check_told(self):
        for h in self.handlers:
            sa.check(h.complete(), NONE_LOST, h.want)
            h.drop()

    async def relist(self):
        """The watch fails; the reflector lists again."""
        self.push("boom")
        await sa.settle()
        for _ in range(4):
            if not self.env.list_gate.open():
                sa.fire()
                await sa.settle()
        sa.check(self.env.list_gate.open(), "a watch that failed is followed by a new list")

    async def watching(self):
        await sa.settle()
        if self.env.watch_gate.open():
            self.env.watch_gate.give(None)
            await sa.settle()
        sa.check(self.env.event.open(), "the list is followed by a watch")


async def following(shared, n=1):
    """Any sequence of changes, by events and by relists."""
    w = World(shared)
    await w.make(n=n)
    w.go()
    await sa.settle()
    w.give_list([2 * sa.choose(2, "listed"), 2 * sa.choose(2, "listed")])
    await w.watching()
    n = 0
    while True:
        await sa.settle()
        await sa.point()
        sa.clear_crashes()
        w.check_store()
        w.check_told()
        sa.check(w.env.event.open() and not w.t.done(), "the informer goes on")
        k = sa.choose(5, "step") if n == 0 else 4
        if k < 4:
            n += 1
            w.send(k % 2, k // 2 == 1)
            if sa.flag("and another change at once"):
                k = sa.choose(4, "second change")
                w.send(k % 2, k // 2 == 1)
            k = None
        else:
            n = 0
            k = None
            await w.relist()
            w.give_list([sa.choose(3, "listed"), sa.choose(3, "listed")])
            await w.watching()


async def i01_plain():
    await following(False)


async def i01_shared():
    await following(True)


async def i02_two():
    await following(True, 2)


async def started(w, first=None):
    """The informer has listed (x and y, or what is chosen) and watches."""
    w.go()
    await sa.settle()
    w.give_list(first or [2, 2])
    await w.watching()


async def i01_many():
    """Many handlers: none is told before the store has changed, however long it takes to tell the others."""
    w = World(True)
    await w.make(n=6)
    await started(w, [0, 2])
    w.check_store()
    w.check_told()
    for _ in range(2):
        k = sa.choose(5, "change")
        if k < 4:
            w.send(k % 2, k // 2 == 1)
        else:
            await w.relist()
            w.give_list([2 * sa.choose(2, "listed"), 2 * sa.choose(2, "listed")])
            await w.watching()
        await sa.settle()
        w.check_store()
        w.check_told()


def pending(h):
    return len(h.want[0]) + len(h.want[1])


async def i01_slow():
    """The plain informer with a handler that takes its time: changes and relists pile up behind it."""
    await piling(1)


async def i01_slow_two():
    await piling(2)


async def piling(objects):
    w = World(False)
    await w.make(mode="slow")
    h = w.handlers[0]
    env = w.env
    w.go()
    broken = True                  # the watch is to be followed by a list
    n = 0
    while True:
        await sa.settle()
        if env.watch_gate.open():
            env.watch_gate.give(None)
            await sa.settle()
        await sa.point()
        sa.clear_crashes()
        sa.check(not w.t.done(), "the informer goes on")
        if env.list_gate.open():
            broken = False
            n = 0
            w.give_list([sa.choose(3, "listed"), sa.choose(3, "listed") if objects == 2 else 0])
            continue
        if not h.gate.open() and not broken:
            sa.check(env.event.open(), "the list is followed by a watch")
            w.check_told()
            w.check_store()
        if h.gate.open() and sa.flag("the handler ends"):
            h.gate.give(None)
            continue
        if broken:
            sa.check(sa.fire() or h.gate.open(), "a watch that failed is followed by a new list")
            continue
        sa.assume(pending(h) < 2 and env.event.open())
        k = sa.choose(5, "step") if n < 2 else 4
        if k == 4:
            w.push("boom")
            broken = True
        else:
            n += 1
            sa.assume(objects == 2 or k % 2 == 0)
            w.send(k % 2, k // 2 == 1)
        k = None


async def i04_slow():
    """Two handlers; one takes its time, the other has to be told everything all the same."""
    await uneven("slow")


async def i04_failing():
    await uneven("failing")


async def i04_backlog():
    """Many changes pile up behind a handler."""
    w = World(True)
    await w.make(mode="slow")
    h = w.handlers[0]
    await started(w, [0, 2])
    n = sa.choose(8, "changes")
    for _ in range(n):
        w.send(1, False)
        await sa.settle()
        w.check_store()
    sa.check(w.env.event.open() and not w.t.done(), "the informer goes on")
    while h.gate.open():
        await sa.point()
        if sa.flag("another change"):
            sa.assume(n < 8)
            n = n + 1
            w.send(1, False)
        else:
            h.gate.give(None)
        await sa.settle()
        w.check_store()
    w.check_told()


ISOLATED = "a slow or failing handler delays nothing for the others"


async def uneven(mode, shared=True):
    w = World(True)
    await w.make(n=0)
    first = sa.flag("the odd one was added first")
    odd = None
    for i in (0, 1):
        h = w.handler(mode if first == (i == 0) else "quick")
        if first == (i == 0):
            odd = h
        else:
            quick = h
        await w.inf.add_event_handler(h.funcs())
    first = h = None
    await started(w, [0, 2])
    n = 0
    while True:
        await sa.settle()
        await sa.point()
        sa.clear_crashes()
        sa.check(w.env.event.open() and not w.t.done(), "the informer goes on")
        w.check_store()
        sa.check(quick.complete(), ISOLATED)
        quick.drop()
        if mode == "slow":
            if not odd.gate.open():
                odd.failed = False
                sa.check(odd.complete(), NONE_LOST)
                odd.drop()
            elif sa.flag("the slow handler ends"):
                odd.gate.give(None)
                continue
        else:
            for _ in range(6):
                if odd.complete():
                    break
                sa.check(odd.failed, NONE_LOST, odd.want)
                if sa.flag("another change before it goes on"):
                    break
                sa.check(sa.fire(), "a handler that failed goes on with its next change")
                await sa.settle()
            else:
                sa.check(odd.complete(), "a handler that failed goes on with its next change", odd.want)
            if odd.complete():
                odd.drop()
        sa.assume(pending(odd) < 2)
        k = sa.choose(3, "step") if n < 2 else 2
        if n == 2:
            n = 0
            await w.relist()
            w.give_list([1 if w.now[0] else 0, sa.choose(3, "listed")])
            await w.watching()
        else:
            n += 1
            sa.assume(k != 2 or w.now[1] is not None)
            w.send(1 if k else 0, k == 2)
        k = None


async def registered(w, regs):
    await sa.settle()
    for r in regs:
        sa.check(r.done(), "adding a handler ends once what is being processed is done")


def alike(a, b):
    """The same state of an object, perhaps listed twice."""
    if a is None or b is None:
        return a is b
    return a is b or a.metadata.resource_version == b.metadata.resource_version


def history(w):
    """Per object the state stored and, if it differs, the one on its way to the store."""
    out = []
    for i in (0, 1):
        a, b = w.get(KEYS[i]), w.now[i]
        out.append([a] if alike(a, b) else [a, b])
    return out


def event(w, *lates):
    e = sa.choose(4, "event")
    sa.assume(e < 2 or w.now[e - 2] is not None)
    w.send(e % 2, e >= 2)
    for l in lates:
        l.changed()


async def i03_early():
    """A handler added before run, with it, or before the first list."""
    w = World(True)
    slow = sa.flag("the first handler is slow")
    await w.make(mode="slow" if slow else "quick")
    slow = None
    first = w.handlers[0]
    k = sa.choose(3, "when")
    if k == 1:
        w.go()
        for _ in range(sa.choose(5, "turns")):
            await asyncio.sleep(0)
    late = Late(w, [[None], [None]])
    regs = [asyncio.ensure_future(w.inf.add_event_handler(late.funcs()))]
    if k == 2:
        w.go()
    k = None
    await registered(w, regs)
    regs = None
    if w.t is None:
        w.go()
        await sa.settle()
    w.give_list([2 * sa.choose(2, "listed"), 2])
    late.base = [0, 0]
    late.changed()
    await w.watching()
    event(w, late)
    await sa.settle()
    late.complete()
    while first.gate.open():
        first.gate.give(None)
        await sa.settle()
    w.check_told()


async def i03():
    """A handler added to a running informer, while changes come in before, during and after."""
    await adding(False, 1, 8)


async def i03_slow():
    await adding(True, 1, 8)


async def i03_pair():
    await adding(False, 2, 8)


async def i03_full():
    await adding(False, 1, 12, True)


async def i03_slow_full():
    await adding(True, 1, 12, True)


async def i03_pair_full():
    await adding(False, 2, 12, True)


async def adding(slow, n, turns, full=False):
    w = World(True)
    await w.make(mode="slow" if slow else "quick")
    first = w.handlers[0]
    await started(w, [2 * sa.choose(2, "listed") if full else 0, 2])
    if sa.flag("an event just before"):
        event(w)
        for _ in range(sa.choose(turns, "turns")):
            await asyncio.sleep(0)
    lates = [Late(w, history(w)) for _ in range(n)]
    regs = [asyncio.ensure_future(w.inf.add_event_handler(l.funcs())) for l in lates]
    for _ in range(sa.choose(turns, "turns")):
        await asyncio.sleep(0)
    event(w, *lates)
    await registered(w, regs)
    regs = None
    for l in lates:
        l.registered()
    if full:
        event(w, *lates)
    else:
        for i in (0, 1):
            w.send(i, False)
        for l in lates:
            l.changed()
    await sa.settle()
    for l in lates:
        l.complete()
    while first.gate.open():
        first.gate.give(None)
        await sa.settle()
    w.check_told()


async def i03_burst():
    """A handler added while several changes of one object are processed in one go."""
    w = World(True)
    await w.make()
    await started(w, [2 * sa.choose(2, "listed"), 0])
    await sa.settle()
    states = [w.now[0]]
    deltas = []
    for _ in range(2):
        old = w.now[0]
        if old is not None and sa.flag("deletion"):
            w.expect(0, "delete", old)
            w.now[0] = None
            deltas.append(delta_fifo.Delta(delta_fifo.DeltaType.DELETED, old))
        else:
            new = w.fresh(0)
            w.expect(0, *(["add", new] if old is None else ["update", old, new]))
            w.now[0] = new
            deltas.append(delta_fifo.Delta(delta_fifo.DeltaType.ADDED if old is None else delta_fifo.DeltaType.UPDATED, new))
        states.append(w.now[0])
    t = asyncio.ensure_future(w.inf.handle_deltas(delta_fifo.Deltas(deltas)))
    for _ in range(sa.choose(12, "turns")):
        await asyncio.sleep(0)
    at = w.get(KEYS[0])
    while not alike(states[0], at):
        states.pop(0)
    late = Late(w, [states, [None]])
    regs = [asyncio.ensure_future(w.inf.add_event_handler(late.funcs()))]
    await registered(w, regs)
    regs = None
    await t
    late.registered()
    await sa.settle()
    late.complete()
    w.check_told()


async def i03_relist():
    """A handler added while the informer processes a new list."""
    w = World(True)
    await w.make()
    await started(w)
    await w.relist()
    w.give_list([sa.choose(3, "listed"), sa.choose(3, "listed")])
    late = Late(w, None)
    for _ in range(sa.choose(24, "turns")):
        await asyncio.sleep(0)
    # what the store holds already is the first the handler may be told of
    late.states = history(w)
    regs = [asyncio.ensure_future(w.inf.add_event_handler(late.funcs()))]
    await registered(w, regs)
    late.registered()
    await w.watching()
    event(w, late)
    await sa.settle()
    late.complete()
    w.check_told()


async def i03_stopped():
    """A handler added while or after the informer stops."""
    w = World(True)
    await w.make()
    await started(w)
    w.t.cancel()
    for _ in range(sa.choose(16, "turns")):
        await asyncio.sleep(0)
    over = w.t.done()
    late = Late(w, history(w))
    late.mute(over)
    reg = asyncio.ensure_future(w.inf.add_event_handler(late.funcs()))
    await registered(w, [reg])
    sa.check(reg.exception() is None, "adding a handler to a stopped informer returns")
    for _ in range(3):
        sa.fire()
        await sa.settle()
    sa.check(w.t.done() and w.t.cancelled() and not running(), "a handler added to a stopped informer starts nothing", origins(running()))


class Late(Handler):
    """A handler added late: per object it has to be told of a gapless end of the history, beginning with an addition."""

    def __init__(self, w, states):
        Handler.__init__(self, w, False)
        self.states = states
        self.base = [0, 0]         # the state when the registration had ended
        self.at = [None, None]     # position of the last state told

    def changed(self):
        for i in (0, 1):
            if not alike(self.states[i][-1], self.w.now[i]):
                self.states[i].append(self.w.now[i])

    def registered(self):
        self.base = [len(self.states[0]) - 1, len(self.states[1]) - 1]
        self.complete()

    def mute(self, on):
        self.muted = on

    async def told(self, i, *what):
        sa.check(not self.muted, "a handler added to a stopped informer receives nothing", what[0])
        await asyncio.sleep(0)
        states = self.states[i]
        new = what[-1] if what[0] != "delete" else None
        at = self.at[i]
        if at is None:
            # the first word
            if what[0] == "add":
                pos = [j for j in range(len(states)) if states[j] is new] or [j for j in range(len(states)) if alike(states[j], new)]
                sa.check(len(pos) == 1, "a handler added late is first told of the objects stored", what)
                self.at[i] = pos[0]
            else:
                sa.check(False, "a handler added late is first told of the objects stored", what)
            return
        if what[0] == "update" and alike(what[1], what[2]) and alike(new, states[at]):
            return                 # an unchanged object listed again
        sa.check(at + 1 < len(states), "a handler added late is told of each change once", what)
        old = states[at]
        nxt = states[at + 1]
        self.at[i] = at + 1
        if old is None:
            ok = what[0] == "add" and alike(nxt, new)
        elif nxt is None:
            ok = what[0] == "delete"
        else:
            ok = what[0] == "update" and alike(what[1], old) and alike(nxt, new)
        sa.check(ok, "a handler added late is told of every change from then on", what)

    def complete(self):
        for i in (0, 1):
            if self.at[i] is None:
                sa.check(all([x is None for x in self.states[i][self.base[i]:]]), "a handler added late misses nothing", KEYS[i])
            else:
                sa.check(self.at[i] == len(self.states[i]) - 1, "a handler added late misses nothing", KEYS[i])


# ------------------------------------------------------------------ resyncs
class Resynced(Handler):
    """Takes note of the resyncs it gets; changes are checked as ever."""

    def __init__(self, w, period):
        Handler.__init__(self, w, False)
        self.period = period
        self.last = sa.now()
        self.check = None

    async def told(self, i, *what):
        if what[0] == "update" and what[1] is what[2]:
            t = sa.now()
            sa.check(self.period > 0, "a handler without a resync period gets no resync")
            sa.check(self.period == 0 or sa.entail(t - self.last, ">=", self.period), "a resync is delivered only to handlers whose period is due",
                     t - self.last, self.period)
            if self.w.check is not None:
                sa.check(sa.entail(t - self.last, "<", self.period + self.w.check), RESYNCED, t - self.last, self.period)
            self.last = t
            self.again = True
            return
        await Handler.told(self, i, *what)


RESYNCED = "each handler is resynced at its own period or the informer's"


async def periods(defaults, first, second, late, changes, fires):
    w = World(True)
    default = defaults[sa.choose(len(defaults), "default period")]
    w.inf = shared_informer.new_shared_informer(w.env, Thing, default)
    asked = [first[sa.choose(len(first), "first period")], second[sa.choose(len(second), "second period")]]
    asked = [default if a is None else a for a in asked]
    check = default
    for a in asked:
        if a and default:
            check = min(check, max(a, 1))
    w.check = check
    for a in asked:
        h = Resynced(w, max(a, 1, check) if a and check else 0)
        w.handlers.append(h)
        if a == default and sa.flag("by default"):
            await w.inf.add_event_handler(h.funcs())
        else:
            await w.inf.add_event_handler(h.funcs(), resync_period=a)
    a = late[sa.choose(len(late), "late period")]
    asked = first = second = h = None
    await started(w, [0, 2])
    changes = changes and sa.flag("changes in between")
    for k in range(fires):
        await sa.point()
        if k == 1 and a is not None:
            h = Resynced(w, max(a, 1, check) if a and check else 0)
            await w.inf.add_event_handler(h.funcs(), resync_period=a)
            h.expect(1, "add", w.now[1])
            w.handlers.append(h)
            await sa.settle()
        if changes:
            w.send(1, False)
            await sa.settle()
        if not sa.fire():
            sa.check(check == 0, RESYNCED, "no check")
            break
        await sa.settle()
        w.check_told()
        for h in w.handlers:
            sa.check(h.period == 0 or sa.entail(sa.now() - h.last, "<", h.period + check), RESYNCED, sa.now() - h.last, h.period)


async def i06():
    await periods((0, 2, 3), (None, 0, 0.5, 2, 5), (0, 1, 3), (None, 0, 0.5, 4), False, 7)


async def i02_resync():
    await periods((2, 3), (None, 0, 5), (2, 0), (None, 1), True, 6)


async def i02_late():
    """A handler added while a resync for the others is on its way."""
    w = World(True)
    w.unversioned = sa.flag("objects without a resource version")
    w.inf = shared_informer.new_shared_informer(w.env, Thing, 2)
    h = Resynced(w, 2)
    w.handlers.append(h)
    await w.inf.add_event_handler(h.funcs())
    await started(w, [0, 2])
    sa.check(sa.fire(), RESYNCED)
    for _ in range(sa.choose(20, "turns")):
        await asyncio.sleep(0)
    p = 2 * sa.choose(2, "period")
    late = Resynced(w, p)
    w.handlers.append(late)
    late.expect(1, "add", w.now[1])
    t = asyncio.ensure_future(w.inf.add_event_handler(late.funcs(), resync_period=p))
    await sa.settle()
    sa.check(t.done(), "a handler is registered")
    w.check_told()
    sa.check(h.last == sa.now(), RESYNCED)
    for _ in range(2):
        sa.check(sa.fire(), RESYNCED)
        await sa.settle()
        w.check_told()
        sa.check(h.last == sa.now(), RESYNCED)
        sa.check(p == 0 or late.last == sa.now(), RESYNCED)


async def i02_any():
    """Periods of any length: the resync goes to those it is due for and to nobody else."""
    w = World(True)
    p, q = sa.num("period", 1), sa.num("other period", 1)
    w.inf = shared_informer.new_shared_informer(w.env, Thing, p)
    for r in (p, q):
        h = Resynced(w, r)
        w.handlers.append(h)
        await w.inf.add_event_handler(h.funcs(), resync_period=r)
    await started(w, [0, 2])
    check = q if q < p else p
    w.check = check
    for _ in range(4):
        await sa.point()
        sa.check(sa.fire(), RESYNCED)
        await sa.settle()
        w.check_told()
        for h in w.handlers:
            sa.check(sa.entail(sa.now() - h.last, "<", h.period + check), RESYNCED, sa.now() - h.last, h.period)


# ------------------------------------------------------------------ the end
ENDS = "a cancelled informer ends with the cancellation"
NOTHING = "nothing is left running when the informer has ended"


async def stop(w, turns):
    for _ in range(turns):
        await asyncio.sleep(0)
    w.t.cancel()
    await sa.settle()
    for _ in range(6):
        g = [h.gate for h in w.handlers if h.gate.open()]
        if not g:
            break
        g[0].give(None)
        await sa.settle()
    sa.check(w.t.done() and w.t.cancelled(), ENDS)
    sa.check(not running(), NOTHING, origins(running()))
    sa.check(w.env.opened == 0 and not w.env.list_gate.open() and not w.env.watch_gate.open() and not w.env.event.open(), NOTHING)
    for h in w.handlers:
        h.muted = True
    sa.check(sa.timers() == 0, NOTHING)
    if w.shared:
        late = Handler(w, False)
        late.muted = True
        t = asyncio.ensure_future(w.inf.add_event_handler(late.funcs()))
        await sa.settle()
        sa.check(t.done() and t.exception() is None, "adding a handler to a stopped informer returns")
        sa.check(not running(), NOTHING, origins(running()))


async def ending(shared, turns):
    w = World(shared)
    mode = ("quick", "slow", "failing")[sa.choose(3, "handler")]
    if shared:
        await w.make(n=0, period=0)
        w.inf._clock = w.inf._processor._clock = Frozen()
        for m in (mode, "quick"):
            await w.inf.add_event_handler(w.handler(m).funcs())
    else:
        await w.make(mode=mode)
    w.go()
    k = sa.choose(7, "when")
    if k == 0:
        await stop(w, sa.choose(turns, "turns"))
        return
    await sa.settle()
    if k == 1:
        w.env.list_gate.fail()
        await stop(w, sa.choose(turns, "turns"))
        return
    w.give_list([0, 2])
    if k == 2:
        await stop(w, sa.choose(3 * turns, "turns"))
        return
    await w.watching()
    for _ in range(sa.choose(3, "changes before")):
        w.send(1, False)
    if k == 3:
        await stop(w, sa.choose(3 * turns, "turns"))
        return
    await sa.settle()
    if k == 4:
        await stop(w, 0)
        return
    w.push("boom" if k == 5 else None)
    await stop(w, sa.choose(2 * turns, "turns"))


async def i05_shared():
    await ending(True, 6)


async def i05_plain():
    await ending(False, 6)


async def i05_resync():
    """Cancelled around a resync."""
    w = World(True)
    await w.make(period=2, mode="slow" if sa.flag("slow") else "quick", n=2)
    await started(w, [2, 2])
    for _ in range(1 + sa.choose(2, "resyncs before")):
        sa.fire()
    for h in w.handlers:
        h.want = Anything()
    await stop(w, sa.choose(20, "turns"))


class Anything:
    """Whatever is told is right."""

    def __getitem__(self, i):
        return self

    def __len__(self):
        return 1


async def i05_queue():
    """The queue of a stopped controller is closed: no consumer stays blocked."""
    env = Env()
    known = store.new_store(controller.deletion_handling_meta_namespace_key_func)
    q = delta_fifo.DeltaFIFO(store.meta_namespace_key_func, known)

    async def process(deltas):
        await asyncio.sleep(0)

    c = controller.new(controller.Config(queue=q, lister_watcher=env, object_type=Thing, process=process, full_resync_period=0,
                                         retry_on_error=False))
    t = asyncio.ensure_future(c.run())
    for _ in range(1 + sa.choose(4, "turns")):
        await asyncio.sleep(0)
    if sa.flag("listed"):
        await sa.settle()
        env.list_gate.give(Listing([Thing("x", "1")]))
    pops = [asyncio.ensure_future(outcome(q.pop(process)))]
    for _ in range(sa.choose(12, "turns")):
        await asyncio.sleep(0)
    t.cancel()
    await sa.settle()
    sa.check(t.done() and t.cancelled(), ENDS)
    pops.append(asyncio.ensure_future(outcome(q.pop(process))))
    await sa.settle()
    sa.check(pops[0].done() and pops[1].done(), "no consumer of a stopped informer's queue stays blocked")
    sa.check(not running(), NOTHING, origins(running()))


# ------------------------------------------------------------------ synced
SYNCED = "an informer is synced only when every object of its first list is in its store"


async def i07_plain():
    await syncing(False)


async def i07_shared():
    await syncing(True)


async def syncing(shared):
    w = World(shared)
    await w.make(mode=("quick", "slow", "failing")[sa.choose(3, "handler")])
    h = w.handlers[0]
    sa.check(not w.inf.has_synced(), "an informer that does not run is not synced")
    w.go()
    for _ in range(3):
        await asyncio.sleep(0)
        sa.check(not w.inf.has_synced(), SYNCED)
    await sa.settle()
    if sa.flag("the first list fails"):
        w.env.list_gate.fail()
        await sa.settle()
        sa.check(not w.inf.has_synced(), SYNCED)
        sa.fire()
        await sa.settle()
    n = [2 * sa.choose(2, "listed"), 2 * sa.choose(2, "listed")]
    w.give_list(n)
    update = sa.flag("an update meanwhile")
    was = False
    for turn in range(60):
        await asyncio.sleep(0)
        sa.check(w.inf.has_synced() or not was, "an informer stays synced while it runs")
        was = w.inf.has_synced()
        if was:
            for i in (0, 1):
                sa.check(not n[i] or w.get(KEYS[i]) is not None, SYNCED)
        if w.env.watch_gate.open():
            w.env.watch_gate.give(None)
        if update and w.env.event.open():
            update = False
            w.send(1, False)
        if turn > 30 and h.gate.open() and turn % 4 == 0:
            h.gate.give(None)
    for _ in range(4):
        if h.gate.open():
            h.gate.give(None)
            await sa.settle()
    sa.check(w.inf.has_synced(), "an informer is synced once every object of its first list is in its store")


async def i07_wait_fails():
    """A check that fails ends the wait; what is synced already is not waited for."""
    k = sa.choose(4, "caches")
    state = [k == 1]

    def fails():
        raise Boom
    fs = ([], [lambda: True, lambda: True], [lambda: True, fails], [lambda: state[0], fails])[k]
    state[0] = True
    t = asyncio.ensure_future(shared_informer.wait_for_cache_sync(*fs))
    await sa.settle()
    if k < 2:
        sa.check(t.done() and t.result() is True, "waiting for caches that are synced ends at once")
        return
    sa.check(t.done() and t.exception() is None and t.result() is False, "a check that fails ends the wait without success")


async def i07_wait():
    """Waiting for two caches that become synced in any order."""
    state = [False, False]
    t = asyncio.ensure_future(shared_informer.wait_for_cache_sync(lambda: state[0], lambda: state[1]))
    for _ in range(4):
        await sa.settle()
        await sa.point()
        sa.check(not t.done(), "waiting for caches ends only when all are synced")
        if sa.flag("cancelled"):
            t.cancel()
            await sa.settle()
            sa.check(t.done() and t.cancelled(), "a cancelled wait ends with the cancellation")
            return
        state[0] = sa.flag("first")
        state[1] = sa.flag("second")
        both = state[0] and state[1]
        fired = sa.fire()
        sa.check(fired, "waiting for caches ends when all are synced")
        await sa.settle()
        if both:
            for _ in range(2):
                if not t.done():
                    sa.fire()
                    await sa.settle()
            sa.check(t.done() and t.result() is True, "waiting for caches ends when all are synced")
            return


async def i07_retry():
    """A processing function that fails at will."""
    env = Env()
    known = store.new_store(controller.deletion_handling_meta_namespace_key_func)
    q = delta_fifo.DeltaFIFO(store.meta_namespace_key_func, known)
    retry = sa.flag("retry on error")
    log = []

    async def process(deltas):
        log.append([d.object for d in deltas])
        await asyncio.sleep(0)
        if len(log) < 5 and sa.flag("processing fails"):
            log.append("failed")
            raise Boom

    c = controller.new(controller.Config(queue=q, lister_watcher=env, object_type=Thing, process=process, full_resync_period=0,
                                         retry_on_error=retry))
    t = asyncio.ensure_future(c.run())
    await sa.settle()
    env.list_gate.give(Listing([]))
    await sa.settle()
    env.watch_gate.give(None)
    for i in range(3):
        await sa.settle()
        sa.check(env.event.open() and not t.done(), "a failing processing function does not stop the informer")
        o = Thing(NAMES[i % 2], str(i))
        env.event.give({"type": "MODIFIED", "object": o})
        await sa.settle()
        want = o
        for j in range(len(log)):
            if log[j] == "failed":
                if not retry:
                    want = None
            else:
                sa.check(want is not None and len(log[j]) == 1 and log[j][0] is want, "what failed is processed again exactly if configured", log)
        sa.check(len(log) > 0 and (log[-1] != "failed" or not retry), "what failed is processed again exactly if configured", log)
        log.clear()


# ------------------------------------------------------------------ indexes and versions
async def i08():
    """The indexes of an informer, defined at its creation and before its start; the version it has reached."""
    env = Env()

    def by_name(o):
        return [o.metadata.name]

    def by_version(o):
        return [o.metadata.resource_version]

    OPEN = "indexers can be added before the start"
    inf = shared_informer.new_shared_index_informer(env, Thing, 0, {"name": by_name})
    inf._clock = inf._processor._clock = Frozen()
    sa.check(not inf.has_synced() and inf.last_sync_resource_version() == "", "before it runs an informer is not synced and has reached no version")
    r, e = await outcome(inf.add_indexers({"version": by_version}))
    sa.check(e is None, OPEN, e)
    r, e = await outcome(inf.add_indexers({"third": by_name, "name": by_version}))
    sa.check(e is not None, "an indexer whose name is taken is refused")
    now = [None, None]
    ix = inf.get_indexer()
    INDEX = "an index of the informer finds exactly the stored objects"

    async def check():
        for i in (0, 1):
            l = await ix.by_index("name", NAMES[i])
            sa.check(len(l) == (now[i] is not None) and all([x is now[i] for x in l]), INDEX, NAMES[i], l)
        for v in ("1", "2", "9"):
            l = await ix.by_index("version", v)
            want = [o for o in now if o is not None and o.metadata.resource_version == v]
            sa.check(len(l) == len(want) and all([any([x is o for x in l]) for o in want]), INDEX, v, l)
        r, e = await outcome(ix.by_index("third", "x"))
        sa.check(isinstance(e, KeyError), "an index that was refused is not defined", r, e)
    await check()
    t = asyncio.ensure_future(inf.run())
    await sa.settle()
    if sa.flag("after the start"):
        r, e = await outcome(inf.add_indexers({"third": by_name}))
        sa.check(e is not None, "indexers cannot be added once the informer runs")
        await check()
    sa.check(inf.get_indexer() is ix, "the store of an informer stays the same")
    sa.check(inf.last_sync_resource_version() == "" or inf.last_sync_resource_version() is None, "before it runs an informer is not synced and has reached no version")
    now = [Thing(NAMES[i], "1") if sa.flag("listed") else None for i in (0, 1)]
    env.list_gate.give(Listing([o for o in now if o is not None]))
    await sa.settle()
    env.watch_gate.give(None)
    await sa.settle()
    VERSION = "last_sync_resource_version is that of the last list or event"
    sa.check(inf.last_sync_resource_version() == "L", VERSION, inf.last_sync_resource_version())
    sa.check(inf.has_synced(), "an informer is synced once every object of its first list is in its store")
    await check()
    for _ in range(2):
        i = sa.choose(2, "object")
        if sa.flag("deleted"):
            sa.assume(now[i] is not None)
            last = Thing(NAMES[i], "9")
            now[i] = None
            env.event.give({"type": "DELETED", "object": last})
        else:
            last = Thing(NAMES[i], sa.pick("1", "2"))
            env.event.give({"type": "ADDED" if now[i] is None else "MODIFIED", "object": last})
            now[i] = last
        await sa.settle()
        sa.check(inf.last_sync_resource_version() == last.metadata.resource_version, VERSION, inf.last_sync_resource_version())
        await check()
    if sa.flag("late"):
        r, e = await outcome(inf.add_indexers({"third": by_name}))
        sa.check(e is not None, "indexers cannot be added once the informer runs")
        await check()
    reached = inf.last_sync_resource_version()
    t.cancel()
    await sa.settle()
    await check()
    sa.check(inf.get_indexer() is ix, "the store of an informer stays the same")
    sa.check(inf.last_sync_resource_version() == reached, VERSION, inf.last_sync_resource_version())
    r, e = await outcome(inf.add_indexers({"third": by_name}))
    sa.check(e is not None, "indexers cannot be added once the informer runs")
    await check()


# ------------------------------------------------------------------ further
class Counting(Handler):
    """Counts the resyncs of each object."""

    def __init__(self, w):
        Handler.__init__(self, w, True)
        self.again = [0, 0]

    async def told(self, i, *what):
        if what[0] == "update" and what[1] is what[2]:
            sa.check(what[2] is self.w.now[i], "a resync tells the object stored", what)
            self.again[i] += 1
            return
        await Handler.told(self, i, *what)


async def i02_plain():
    """The plain informer with a resync period: every object stored is told anew each time, nothing without a period."""
    w = World(False)
    period = 2 * sa.choose(2, "resync period")
    h = Counting(w)
    w.handlers.append(h)
    w.store, w.inf = controller.new_informer(w.env, Thing, period, h.funcs())
    await started(w, [2 * sa.choose(2, "listed"), 2])
    w.check_told()
    for _ in range(3):
        sa.check(h.again == [0, 0], "a resync comes when its period has passed")
        if sa.flag("a change in between"):
            w.send(0, w.now[0] is not None)
            await sa.settle()
            w.check_told()
        t = sa.now()
        if not period:
            sa.check(not sa.fire(), "without a resync period there is no resync")
            break
        sa.check(sa.fire() and sa.now() - t == period, "a resync comes when its period has passed", sa.now() - t)
        await sa.settle()
        sa.check(h.again == [0 if o is None else 1 for o in w.now], "a resync tells every object stored, once", h.again)
        h.again = [0, 0]
        w.check_told()
        w.check_store()


async def i07_unversioned():
    """Sources that give no resource versions, or odd ones."""
    w = World(sa.flag("shared"))
    await w.make()
    w.go()
    await sa.settle()
    version = ("", None, "0")[sa.choose(3, "version")]
    items = []
    if sa.flag("listed"):
        items.append(Thing("x", version))
        w.now[0] = items[0]
        w.expect(0, "add", items[0])
    l = Listing(items)
    l.metadata.resource_version = version
    sa.check(not w.inf.has_synced(), SYNCED)
    w.env.list_gate.give(l)
    await sa.settle()
    sa.check(w.inf.has_synced(), "an informer is synced once every object of its first list is in its store")
    w.check_told()
    w.check_store()
    sa.check(w.env.watch_gate.open() and w.env.asked == version, "the list is followed by a watch")
    w.env.watch_gate.give(None)
    await sa.settle()
    w.unversioned = True
    w.send(0, False)
    await sa.settle()
    w.check_told()
    w.check_store()
    sa.check(w.inf.has_synced(), "an informer is synced once every object of its first list is in its store")
    sa.check(not w.t.done(), "the informer goes on")


async def i07_stopped():
    """An informer that is stopped before it was synced does not become synced by that."""
    w = World(sa.flag("shared"))
    await w.make(mode="slow" if sa.flag("slow handler") else "quick")
    w.go()
    n = [2 * sa.choose(2, "listed"), 2]
    k = sa.choose(3, "when it is stopped")
    if k > 0:
        await sa.settle()
        if k == 2:
            w.give_list(n)
        else:
            w.env.list_gate.fail()
    for _ in range(sa.choose(16, "turns")):
        await asyncio.sleep(0)
    w.t.cancel()
    for _ in range(12):
        await asyncio.sleep(0)
        if w.inf.has_synced():
            sa.check(k == 2, SYNCED)
            for i in (0, 1):
                sa.check(not n[i] or w.get(KEYS[i]) is not None, SYNCED)
    await sa.settle()
    for h in w.handlers:
        if h.gate.open():
            h.gate.give(None)
    await sa.settle()
    sa.check(w.t.done(), ENDS)
    if w.inf.has_synced():
        sa.check(k == 2, SYNCED)
        for i in (0, 1):
            sa.check(not n[i] or w.get(KEYS[i]) is not None, SYNCED)


# ------------------------------------------------------------------ many objects, long backlogs
class Told:
    """Writes down what it is told."""

    def __init__(self):
        self.log = []
        self.gate = None

    async def note(self, *what):
        self.log.append(what)
        if self.gate is not None:
            await self.gate.wait()

    async def add(self, o):
        await self.note("add", o)

    async def update(self, old, new):
        await self.note("update", old, new)

    async def delete(self, o):
        if isinstance(o, delta_fifo.DeletedFinalStateUnknown):
            o = o.obj
        await self.note("delete", o)

    def funcs(self):
        return controller.ResourceEventHandlerFuncs(self.add, self.update, self.delete)


def same_told(log, want):
    """The same notifications; changes of different objects found by one list may come in any order."""
    if len(log) != len(want):
        return False
    by = {}
    for w in want:
        by.setdefault(name_of(w[-1]), []).append(w)
    for l in log:
        q = by.get(name_of(l[-1]))
        if not q:
            return False
        w = q.pop(0)
        if len(w) != len(l) or w[0] != l[0] or not all([w[j] is l[j] for j in range(1, len(w))]):
            return False
    return True


MANY = 120


async def many(shared):
    """Lists of many objects; the next one lacks every third and changes every second."""
    env = Env()
    h = Told()
    if shared:
        inf = shared_informer.new_shared_informer(env, Thing, 0)
        inf._clock = inf._processor._clock = Frozen()
        await inf.add_event_handler(h.funcs())
        st = inf.get_indexer()
    else:
        st, inf = controller.new_informer(env, Thing, 0, h.funcs())
    t = asyncio.ensure_future(inf.run())
    await sa.settle()
    now = {str(i): Thing(str(i), "1") for i in range(MANY)}
    env.list_gate.give(Listing(list(now.values())))
    await sa.settle()
    sa.check(inf.has_synced(), "an informer is synced once every object of its first list is in its store")
    sa.check(same_told(h.log, [("add", o) for o in now.values()]), NONE_LOST)
    env.watch_gate.give(None)
    await sa.settle()
    env.event.give("boom")
    await sa.settle()
    sa.check(sa.fire(), "a watch that failed is followed by a new list")
    await sa.settle()
    h.log = []
    want = []
    new = {}
    for i in range(MANY + 10):
        n = str(i)
        if i % 3 == 0 and n in now:
            want.append(("delete", now[n]))
        elif n not in now:
            new[n] = Thing(n, "1")
            want.append(("add", new[n]))
        else:
            new[n] = Thing(n, "2")
            want.append(("update", now[n], new[n]))
    env.list_gate.give(Listing(list(new.values())))
    await sa.settle()
    sa.check(same_told(h.log, want), NONE_LOST, len(h.log), len(want))
    sa.check(len(st.list()) == len(new) and all([st.get_by_key("ns/" + n) is new[n] for n in new]), "the store holds the objects of the server")
    sa.check(not t.done(), "the informer goes on")


async def i01_listing():
    await many(False)


async def i02_listing():
    await many(True)


async def i04_long():
    """A handler stuck for a long time: all it missed is told in order, the other handler is told at once."""
    env = Env()
    slow, quick = Told(), Told()
    slow.gate = Gate()
    inf = shared_informer.new_shared_informer(env, Thing, 0)
    inf._clock = inf._processor._clock = Frozen()
    await inf.add_event_handler(slow.funcs())
    await inf.add_event_handler(quick.funcs())
    t = asyncio.ensure_future(inf.run())
    await sa.settle()
    env.list_gate.give(Listing([]))
    await sa.settle()
    env.watch_gate.give(None)
    await sa.settle()
    want = []
    old = None
    for i in range(MANY):
        o = Thing("x", str(i))
        want.append(("add", o) if old is None else ("update", old, o))
        env.event.give({"type": "ADDED" if old is None else "MODIFIED", "object": o})
        old = o
        await sa.settle()
        sa.check(len(quick.log) == len(want), ISOLATED)
    sa.check(same_told(quick.log, want), IN_ORDER)
    while slow.gate.open():
        slow.gate.give(None)
        await sa.settle()
    sa.check(same_told(slow.log, want), NONE_LOST, len(slow.log))
    sa.check(not t.done(), "the informer goes on")


async def i04_thousands():
    """A first list of more than a thousand objects while one handler is stuck in the first of them."""
    env = Env()
    slow, quick = Told(), Told()
    slow.gate = Gate()
    inf = shared_informer.new_shared_informer(env, Thing, 0)
    inf._clock = inf._processor._clock = Frozen()
    await inf.add_event_handler(slow.funcs())
    await inf.add_event_handler(quick.funcs())
    t = asyncio.ensure_future(inf.run())
    await sa.settle()
    items = [Thing("n%d" % i, "1") for i in range(1040)]
    env.list_gate.give(Listing(items))
    await sa.settle()
    want = [("add", o) for o in items]
    sa.check(same_told(quick.log, want), ISOLATED, len(quick.log))
    sa.check(inf.has_synced(), "the informer is synced once the first list was processed")
    while slow.gate.open():
        slow.gate.give(None)
        await sa.settle()
    sa.check(same_told(slow.log, want), NONE_LOST, len(slow.log))
    sa.check(not t.done(), "the informer goes on")
