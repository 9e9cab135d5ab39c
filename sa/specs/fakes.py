"""Drivers for the fakes the library offers: the controller source and the custom store."""
import asyncio
import sa
from aiok8s.cache import fake_custom_store
from aiok8s.cache.testing import fake_controller_source
from specs.common import *
from specs.reflect import Boom


class Meta(Full):
    def __init__(self, name, namespace, uid):
        self.name = name
        self.namespace = namespace
        self.uid = uid
        self.resource_version = None


class Thing(Falsy):
    def __init__(self, name, namespace, uid, state):
        self.metadata = Meta(name, namespace, uid)
        self.state = state


IDS = (("a", "x", "u"), ("a", "X", "u"), ("a", "x", "v"), ("a", None, "u"), ("a", None, "v"))
LIST = "a list gives copies of exactly the current objects, with the number of changes as its version"
WATCH = "a watch gives exactly the changes after its version, in order, each once"


class Source:
    def __init__(self, raw):
        self.s = fake_controller_source.FakeControllerSource()
        self.raw = raw
        self.now = {}
        self.changes = []          # [type, id, state, version]
        self.states = 0
        self.watchers = []         # [watcher, changes it has to give, how many of them are copies from the history]

    def make(self, i):
        self.states += 1
        name, ns, uid = IDS[i]
        if self.raw:
            return {"metadata": {"name": name, "namespace": ns, "uid": uid}, "state": self.states}
        return Thing(name, ns, uid, self.states)

    def read(self, o):
        """(id, state, version)"""
        if self.raw:
            m = o["metadata"]
            return IDS.index((m["name"], m["namespace"], m["uid"])), o["state"], m["resourceVersion"]
        m = o.metadata
        return IDS.index((m.name, m.namespace, m.uid)), o.state, m.resource_version

    def change(self, i, gone, drop, other=False):
        """The coroutine of one change; what is expected of it is noted at once."""
        o = self.make(i)
        state = self.states
        kind = "DELETED" if gone else "MODIFIED" if (i in self.now) != other else "ADDED"
        if gone:
            self.now.pop(i)
        else:
            self.now[i] = state
        c = [kind, i, state, str(len(self.changes) + 1)]
        self.changes.append(c)
        if not drop:
            for w in self.watchers:
                w[1].append(c)
        s = self.s
        f = {"ADDED": (s.add, s.add_drop_watch), "MODIFIED": (s.modify, s.modify_drop_watch),
             "DELETED": (s.delete, s.delete_drop_watch)}[kind][1 if drop else 0]
        return f(o)

    def right(self, l, n=None, now=None):
        now = self.now if now is None else now
        sa.check(l.metadata.resource_version == str(len(self.changes) if n is None else n), LIST, l.metadata.resource_version)
        got = {}
        for o in l.items:
            i, state, version = self.read(o)
            got[i] = state
            sa.check(version == [c[3] for c in self.changes if c[1] == i and c[2] == state][-1], "a change gives its object the version it is recorded under", version)
        sa.check(got == now and len(l.items) == len(now), LIST, got, now)
        return l

    async def watch(self, version):
        w = await must("watch returns", self.s.watch({"resource_version": str(version)}))
        self.watchers.append([w, self.changes[version:], len(self.changes) - version])

    def spoil(self, o):
        """What is given as a copy is the caller's own."""
        if self.raw:
            o["metadata"]["resourceVersion"] = o["state"] = "changed"
        else:
            o.metadata.resource_version = o.state = "changed"

    async def drain(self):
        for w in self.watchers:
            for c in w[1]:
                e = await must("a change is given to every watcher", w[0].__anext__())
                i, state, version = self.read(e["object"])
                sa.check([e["type"], i, state] == c[:3], WATCH, e["type"], i, state, c)
                sa.check(version == c[3], "a change gives its object the version it is recorded under", version)
                if w[2]:
                    w[2] -= 1
                    self.spoil(e["object"])
            w[1] = []


async def t01():
    """Any few changes, lists and watches."""
    await some(3)


async def t01_deep():
    await some(4)


async def some(n):
    f = Source(sa.flag("dictionaries"))
    for _ in range(n):
        k = sa.choose(4, "operation")
        if k == 0:
            i = sa.choose(2, "object")
            await must("a change returns", f.change(i, False, sa.flag("not to the watchers")))
        elif k == 1:
            sa.assume(f.now)
            i = sorted(f.now)[sa.choose(len(f.now), "object")]
            await must("a change returns", f.change(i, True, sa.flag("not to the watchers")))
        elif k == 2:
            sa.assume(len(f.watchers) < 2)
            await f.watch(sa.choose(len(f.changes) + 1, "version"))
        else:
            sa.assume(f.changes)
            l = await must("a list returns", f.s.list({"resource_version": "0"}))
            f.right(l)
            for o in l.items:              # the copies are the caller's own
                f.spoil(o)
            if l.items:
                l.items.pop()
    f.right(await must("a list returns", f.s.list({"resource_version": "0"})))
    await f.drain()
    r, e = await outcome(f.s.watch({"resource_version": str(len(f.changes) + 1)}))
    sa.check(e is not None, "a watch from a future version is refused", r)
    f.right(await must("a list returns", f.s.list({"resource_version": "0"})))
    await f.watch(len(f.changes))
    await must("a change returns", f.change(0, False, False))
    await f.drain()
    end = asyncio.ensure_future(f.s.shutdown())
    for w in f.watchers:
        async def rest():
            async for e in w[0]:
                sa.fail(WATCH, e)
        await must("shutdown ends every watch", rest())
    await must("shutdown returns", end)


async def t01_keys():
    """Objects are told apart by namespace, name and uid together."""
    f = Source(sa.flag("dictionaries"))
    for i in range(5):
        await must("a change returns", f.change(i, False, False))
    f.right(await must("a list returns", f.s.list({})))
    gone = sa.choose(5, "object")
    await must("a change returns", f.change(gone, True, False))
    f.right(await must("a list returns", f.s.list({})))
    i = sa.choose(5, "object")
    await must("a change returns", f.change(i, False, False, sa.flag("added again, or modified when not there")))
    f.right(await must("a list returns", f.s.list({})))
    await f.watch(0)
    await f.drain()
    f.right(await must("a list returns", f.s.list({})))
    await f.watch(3)
    await f.drain()


async def t01_copies():
    """What a list or the history gives can be changed without changing either."""
    f = Source(sa.flag("dictionaries"))
    for n in range(4):
        await must("a change returns", f.change(n % 2, n == 2, sa.flag("not to the watchers")))
    for n in range(2):
        for o in f.right(await must("a list returns", f.s.list({}))).items:
            f.spoil(o)
        await f.watch(sa.choose(5, "version"))
        await f.drain()
    f.right(await must("a list returns", f.s.list({})))


async def t01_together():
    """Changes, a list and a watch at the same time."""
    f = Source(False)
    await must("a change returns", f.change(0, False, False))
    seen = []

    async def look():
        l = await f.s.list({})
        seen.append(l)
    states = [({}, 0)]
    ts = []
    at = sa.choose(4, "when it is listed")
    watch = sa.choose(4, "when it is watched")
    got = []

    async def follow():
        w = await f.s.watch({"resource_version": "1"})
        async for e in w:
            got.append(e)
    before = dict(f.now)
    nows = []
    for n in range(4):
        if n == at:
            ts.append(asyncio.ensure_future(look()))
        if n == watch:
            t = asyncio.ensure_future(follow())
        if n < 3:
            ts.append(asyncio.ensure_future(f.change((1, 0, 0)[n], n == 2, False)))
        for _ in range(sa.choose(2, "turns")):
            await asyncio.sleep(0)
        if n == at:
            nows.append(dict(f.now))
    for x in ts:
        await must("a change, a list and a watch at the same time all return", x)
    l = seen[0]
    n = int(l.metadata.resource_version)
    now = {}
    for c in f.changes[:n]:
        if c[0] == "DELETED":
            now.pop(c[1])
        else:
            now[c[1]] = c[2]
    f.right(l, n, now)
    await sa.settle()
    sa.check(len(got) == 3, WATCH, len(got))
    for j in range(3):
        i, state, version = f.read(got[j]["object"])
        sa.check([got[j]["type"], i, state, version] == f.changes[1 + j], WATCH, j)
    await must("shutdown returns", f.s.shutdown())
    await sa.settle()
    sa.check(t.done(), "shutdown ends every watch")


async def t01_many():
    """A long history, watched from somewhere in it."""
    f = Source(False)
    for n in range(130):
        i = (0, 1, 0, 2, 3)[n % 5]
        gone = n % 7 == 3 and i in f.now
        await must("a change returns", f.change(i, gone, n % 3 == 0))
        if n % 29 == 4:
            f.right(await must("a list returns", f.s.list({})))
    await f.watch(7)
    await f.drain()
    await f.watch(130)
    await must("a change returns", f.change(1, False, False))
    await f.drain()


async def t01_pressure():
    """More changes than anything on the way holds, while more changes and a watch come."""
    asyncio._CAP[0] = 8                   # of the watcher and of the broadcaster
    f = Source(False)
    await must("a change returns", f.change(0, False, False))
    await f.watch(1)
    ts = []
    for n in range(17):                   # the broadcaster holds one more on its way
        await must("a change returns", f.change(n % 3, False, False))
        await sa.settle()
    version = len(f.changes)
    got = [[], []]

    async def take(n, w):
        if w is None:
            w = await f.s.watch({"resource_version": str(version)})
        async for e in w:
            got[n].append((e["type"],) + f.read(e["object"]))
    for n in range(3):
        ts.append(asyncio.ensure_future(f.change((1, 0, 1)[n], n == 2, False)))
    before = sa.flag("they come before anything is taken")
    if before:
        await sa.settle()
    follow = [asyncio.ensure_future(take(0, f.watchers[0][0]))]
    for _ in range(sa.choose(12, "turns until the watch")):
        await asyncio.sleep(0)
    follow.append(asyncio.ensure_future(take(1, None)))
    for t in ts:
        await must("a change returns once the watchers have taken what came before", t)
    f.right(await must("a list returns", f.s.list({})))
    await sa.settle()
    want = [(c[0], c[1], c[2], c[3]) for c in f.changes]
    sa.check(got[0] == want[1:], WATCH, got[0])
    sa.check(got[1] == want[version:], WATCH, got[1])
    await must("shutdown returns", f.s.shutdown())
    await sa.settle()
    sa.check(all(t.done() for t in follow), "shutdown ends every watch")


FUNCS = ("add", "update", "delete", "list", "list_keys", "get", "get_by_key", "replace", "resync")


async def t02():
    """Each function of the custom store is called for its operation only, once, with what was given."""
    EXACT = "an operation calls its own function once, with what it was given"
    calls = []
    k = sa.choose(len(FUNCS) + 2, "functions given")
    fails = sa.flag("the functions fail")

    def make(name):
        def f(*args):
            calls.append((name,) + args)
            if fails:
                raise Boom
            return answer[name]
        return f
    answer = {n: None for n in FUNCS}
    answer.update({"list": [Falsy()], "list_keys": ["k"], "get": Falsy(), "get_by_key": Falsy()})
    given = FUNCS if k == len(FUNCS) else () if k > len(FUNCS) else (FUNCS[k],)
    s = fake_custom_store.FakeCustomStore(**{n + "_func": make(n) for n in given})
    o = Falsy()
    l = [o]
    for n in FUNCS:
        args = {"list": (), "list_keys": (), "resync": (), "get_by_key": ("k",), "replace": (l, "v")}.get(n, (o,))
        del calls[:]
        if n in ("list", "list_keys", "get", "get_by_key"):
            r, e = outcome_sync(getattr(s, n), *args)
        else:
            r, e = await outcome(getattr(s, n)(*args))
        if n not in given:
            sa.check(not calls and e is None, "an operation without a function does nothing", n, calls)
            sa.check(r is None or r == [], "an operation without a function does nothing", n, r)
            continue
        sa.check(len(calls) == 1 and calls[0][0] == n and len(calls[0]) == 1 + len(args)
                 and all([calls[0][1 + j] is args[j] for j in range(len(args))]), EXACT, n, calls)
        sa.check(isinstance(e, Boom) == fails, "what its function raises reaches the caller", n, e)
        sa.check(fails or r is answer[n], "an operation answers what its function answered", n, r)
