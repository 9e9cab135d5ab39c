"""The parts put together: from the API server's answers to the reconciles, everything between being the real code."""
import asyncio
import sa
from aiok8s.controller import builder, manager, reconcile
from kubernetes_asyncio import _hook
from kubernetes_asyncio.client import models
from specs.common import *
from specs.cachespec import key, PODS

SEEN = "the last reconcile of every object saw its latest state"
ALONE = "an object is never reconciled twice at the same time"
ONLY = "only objects that exist or existed are reconciled"
NAMES = (("a", "x"), ("a", "X"), ("A", "x"))


GONE = {"type": "ERROR", "object": {"kind": "Status", "code": 410}}


class Stream:
    """A watch: what has happened since its version, then what happens, until the driver ends it."""

    def __init__(self):
        self.events = asyncio.Queue()

    async def __anext__(self):
        e = await self.events.get()
        if e is None:
            raise StopAsyncIteration
        if e is Lost:
            raise Lost
        return e

    def close(self):
        pass


class Lost(Exception):
    pass


class Server:
    def __init__(self):
        self.state = {}
        self.version = 8  # the next ones are not in the order of strings
        self.history = []
        self.forgotten = 0
        self.streams = []
        self.fails = 0

    async def call(self, name, args, kw):
        sa.check(name == PODS, "the kind's own operation is called", name)
        if self.fails:
            self.fails -= 1
            raise Lost
        if kw.get("watch"):
            s = Stream()
            since = int(kw.get("resource_version"))
            if since < self.forgotten:
                s.events.put_nowait(GONE)
                return s
            for v, e in self.history:
                if v > since:
                    s.events.put_nowait(e)
            self.streams = [s]
            return s
        return models.V1PodList(items=list(self.state.values()),
                                metadata=models.V1ListMeta(resource_version=str(self.version)))

    def change(self, n, delete=False):
        self.version += 1
        known = n in self.state
        o = models.V1Pod(metadata=models.V1ObjectMeta(namespace=n[0], name=n[1], resource_version=str(self.version)))
        if delete:
            self.state.pop(n)
        else:
            self.state[n] = o
        e = {"type": "DELETED" if delete else "MODIFIED" if known else "ADDED", "object": o}
        self.history.append((self.version, e))
        for s in self.streams:
            s.events.put_nowait(e)

    def forget(self):
        """A watch from a version before this one is answered with an error."""
        self.history = []
        self.forgotten = self.version

    def end(self, how):
        for s in self.streams:
            s.events.put_nowait(how)
        self.streams = []


class Reconciler:
    """Notes what it reads; what it answers is given by the driver."""

    def __init__(self, cache):
        self.cache = cache
        self.last = {}
        self.active = []
        self.answers = []

    async def reconcile(self, request):
        n = (request.namespaced_name.namespace, request.namespaced_name.name)
        sa.check(n not in self.active, ALONE, n)
        sa.check(n in NAMES, ONLY, n)
        self.active.append(n)
        try:
            r, e = await outcome(self.cache.get(key(*n), models.V1Pod))
            sa.check(e is None or isinstance(e, KeyError), "a reconcile can read the cache", e)
            await asyncio.sleep(0)
            how = self.answers.pop(0) if self.answers else 0
            if how == 1:
                raise Lost
            self.last[n] = r
            return reconcile.Result(how == 2, 1 if how == 3 else 0)
        finally:
            self.active.remove(n)


async def calm(rounds):
    """Let time pass until nothing is left to do but to wait for the server."""
    for _ in range(rounds):
        await sa.settle()
        sa.fire()
    await sa.settle()


class World:
    def __init__(self):
        self.server = Server()
        _hook.server = self.server
        self.manager = manager.new()
        self.cache = self.manager.get_cache()
        self.do = Reconciler(self.cache)
        self.seen = set()

    async def start(self):
        await must("build_controller returns", builder.build_controller(self.manager, self.do, api_type=models.V1Pod))
        self.task = asyncio.ensure_future(self.manager.start())

    def change(self, i, delete):
        n = NAMES[i]
        if delete and n not in self.server.state:
            return
        self.server.change(n, delete)

    def compare(self, gone=()):
        sa.check(not self.task.done(), "the manager runs until it is cancelled")
        now = self.server.state
        for n, o in now.items():
            sa.check(n in self.do.last and self.do.last[n] is o, SEEN, n)
        for n, o in self.do.last.items():
            sa.check(n in now or o is None, SEEN, n)
        for n in gone:
            sa.check(n in self.do.last, SEEN, n)

    async def stop(self):
        self.task.cancel()
        await must("the manager ends when it is cancelled", outcome(self.task), 3)


async def c12_changes():
    """Objects there at the start and changes while watching, at once or one by one."""
    w = World()
    for i in range(sa.choose(3, "objects at the start")):
        w.change(i, False)
    await w.start()
    early = sa.flag("changes during the start")
    if not early:
        await calm(5)
        w.compare()
    apart = sa.flag("one by one")
    gone = []
    for i, d in ((0, sa.flag("delete")), (1, False), (0, sa.flag("delete or change again"))):
        if d and NAMES[i] in w.server.state and not early:
            gone.append(NAMES[i])
        w.change(i, d)
        if apart:
            await calm(1)
    await calm(6)
    w.compare(gone)
    await w.stop()


async def c12_answers():
    """Failures and requeues of the reconciler; changes while it waits for its turn."""
    w = World()
    w.change(0, False)
    w.do.answers = [sa.choose(4, "answer"), sa.choose(4, "then")]
    await w.start()
    await calm(6 if sa.flag("settled") else 2)
    w.change(0, sa.flag("deleted"))
    w.change(1, False)
    if sa.flag("later"):
        await calm(1)
        w.change(1, False)
    await calm(10)
    w.compare()
    await w.stop()


async def c12_broken():
    """Watches that end or break, lists that fail: what was missed is made up for."""
    w = World()
    w.change(0, False)
    w.change(1, False)
    w.server.fails = sa.choose(2, "lists that fail")
    await w.start()
    await calm(16 if w.server.fails else 6)
    w.compare()
    how = (None, Lost, GONE)[sa.choose(3, "end of the watch")]
    w.server.end(how)
    w.server.fails = sa.choose(3, "calls that fail")
    missed = sa.flag("changes are missed")
    change = sa.choose(3, "changed, deleted, all deleted")
    w.change(0, change > 0)
    if change == 2:
        w.change(1, True)
    else:
        w.change(2, False)
    if missed:
        w.server.forget()
    await calm(8)
    w.compare([NAMES[0], NAMES[1]])
    w.change(1, change < 2)
    await calm(4)
    w.compare([NAMES[1]])
    await w.stop()


class Slow(Reconciler):
    """Takes as long as the driver wants it to, after it has read the cache."""

    def __init__(self, cache):
        super().__init__(cache)
        self.gates = []

    async def reconcile(self, request):
        n = (request.namespaced_name.namespace, request.namespaced_name.name)
        sa.check(n not in self.active, ALONE, n)
        self.active.append(n)
        try:
            r, e = await outcome(self.cache.get(key(*n), models.V1Pod))
            sa.check(e is None or isinstance(e, KeyError), "a reconcile can read the cache", e)
            g = asyncio.Event()
            self.gates.append(g)
            await g.wait()
            if self.answers and self.answers.pop(0):
                raise Lost
            self.last[n] = r
            return reconcile.Result(False, 0)
        finally:
            self.active.remove(n)

    def open(self):
        gates, self.gates = self.gates, []
        for g in gates:
            g.set()


async def c12_slow():
    """Changes of an object while it is being reconciled."""
    w = World()
    w.do = Slow(w.cache)
    w.change(0, False)
    await w.start()
    await calm(4)
    sa.check(len(w.do.gates) == 1, SEEN, len(w.do.gates))
    w.do.answers = [sa.flag("the first one fails")]
    gone = False
    for i in range(1 + sa.choose(2, "changes")):
        gone = sa.flag("deleted")
        w.change(0, gone)
        if sa.flag("together with another"):
            w.change(1, False)
        await sa.settle()
        sa.check(len(w.do.active) == 1, "a worker reconciles one object at a time", w.do.active)
    for _ in range(6):
        w.do.open()
        await calm(3)
    w.compare([NAMES[0]])
    await w.stop()


async def c12_two():
    """Two controllers for the objects of one kind."""
    w = World()
    other = Reconciler(w.cache)
    w.change(0, False)
    await must("build_controller returns", builder.build_controller(w.manager, other, api_type=models.V1Pod))
    await w.start()
    settled = sa.flag("settled")
    if settled:
        await calm(5)
    other.answers = [sa.choose(3, "answer of the other")]
    gone = sa.flag("deleted")
    w.change(0, gone)
    w.change(1, False)
    await calm(8)
    names = [NAMES[0]] if settled else []
    w.compare(names)
    w.do = other
    w.compare(names)
    await w.stop()
