"""Drivers for the cache of the controller package; the drivers play the API server."""
import asyncio
import sa
from aiok8s.controller import cache, client, manager, reconcile
from aiok8s.runtime import schema
from kubernetes_asyncio import _hook
from kubernetes_asyncio.client import api, models
from specs.common import *
from specs.reflect import Gate, Boom


class NodeClient(client._Client):
    gvk = schema.GroupVersionKind("", "v1", "Node")
    object_type = models.V1Node
    api_cls = api.CoreV1Api

    def _get_lister(self, namespace):
        return self._api_client.list_node


class Stream:
    """A watch that delivers nothing until the driver ends it."""

    def __init__(self, server):
        self.server = server

    async def __anext__(self):
        await self.server.event.wait()
        raise StopAsyncIteration

    def close(self):
        self.server.closed += 1


class Server:
    def __init__(self):
        self.objects = {}          # by operation name
        self.lists = []            # [name, args, options]
        self.watches = []
        self.held = False
        self.gates = []
        self.event = Gate()
        self.closed = 0
        self.version = "7"

    async def call(self, name, args, kw):
        if kw.pop("watch", False):
            kw.pop("_preload_content", None)
            self.watches.append([name, args, kw])
            return Stream(self)
        self.lists.append([name, args, kw])
        if self.held:
            g = Gate()
            self.gates.append(g)
            await g.wait()
        return models.V1PodList(items=list(self.objects.get(name, [])), metadata=models.V1ListMeta(resource_version=self.version))


def serve():
    s = Server()
    _hook.server = s
    return s


def pod(cls, name, namespace):
    return cls(metadata=models.V1ObjectMeta(name=name, namespace=namespace, resource_version="1"))


def key(namespace, name):
    return reconcile.NamespacedName(namespace=namespace, name=name)


PODS = "list_pod_for_all_namespaces"
STORED = "a read returns the stored object of that namespace and name"


async def synced(c):
    await sa.settle()
    t = asyncio.ensure_future(c.wait_for_cache_sync())
    await sa.settle()
    for _ in range(4):
        if t.done():
            break
        sa.fire()
        await sa.settle()
    sa.check(t.done() and t.result() is True, "waiting for the sync ends when the source answers")


async def c05():
    """Objects of one kind, namespaced and cluster-scoped; every lookup."""
    s = serve()
    cls = models.V1Pod if sa.flag("pods") else models.V1Node
    op = PODS if cls is models.V1Pod else "list_node"
    spaces = ("a", "A", None) if cls is models.V1Pod else (None,)
    stored = {}
    for ns in spaces:
        for n in ("x", "x1"):
            if n == "x" or sa.flag("second object"):
                stored[(ns, n)] = pod(cls, n, ns)
    s.objects[op] = list(stored.values())
    c = cache.new()
    r, e = await outcome(c.get(key("a", "x"), cls))
    sa.check(isinstance(e, cache.CacheNotStartedError), "reading before the cache is started raises CacheNotStartedError", e)
    t = asyncio.ensure_future(c.start())
    await synced(c)
    ns = (spaces + ("a1", ""))[sa.choose(len(spaces) + 2, "namespace")]
    n = ("x", "x1", "X")[sa.choose(3, "name")]
    r, e = await outcome(c.get(key(ns, n), cls))
    want = stored.get((ns or None, n))
    if want is None:
        sa.check(isinstance(e, KeyError), "reading what is not stored raises KeyError", r, e)
    else:
        sa.check(e is None and r is want, STORED, r, e)
    sa.check(not t.done(), "the cache runs until it is cancelled")


async def c05_wait():
    """A read while the kind's informer still lists, with the object changing afterwards."""
    s = serve()
    s.held = True
    o = pod(models.V1Pod, "x", "a")
    s.objects[PODS] = [o]
    c = cache.new()
    before = sa.flag("informer known before the start")
    if before:
        await c.get_informer(models.V1Pod)
    t = asyncio.ensure_future(c.start())
    await sa.settle()
    readers = []
    for _ in range(1 + sa.choose(2, "readers")):
        readers.append(asyncio.ensure_future(outcome(c.get(key("a", "x"), models.V1Pod))))
    await sa.settle()
    for _ in range(sa.choose(3, "polls before the answer")):
        sa.fire()
        await sa.settle()
    for r in readers:
        sa.check(not r.done(), "a read waits until the kind's informer is synced")
    sa.check(len(s.gates) == 1, "one informer per kind is run, once", s.lists)
    s.gates[0].give(None)
    await sa.settle()
    for _ in range(4):
        if not all([r.done() for r in readers]):
            sa.fire()
            await sa.settle()
    for r in readers:
        sa.check(r.done(), "waiting for the sync ends when the source answers")
        v, e = r.result()
        sa.check(e is None and v is o, STORED, v, e)


async def c05_first():
    """A read started at any turn while the first list of several objects is being stored."""
    s = serve()
    s.held = True
    objects = [pod(models.V1Pod, n, "a") for n in ("x", "x1", "X")]
    s.objects[PODS] = objects
    c = cache.new()
    await c.get_informer(models.V1Pod)
    t = asyncio.ensure_future(c.start())
    await sa.settle()
    sa.check(len(s.gates) == 1, "one informer per kind is run, once", s.lists)
    s.gates[0].give(None)
    for _ in range(sa.choose(20, "turns")):
        await asyncio.sleep(0)
    reader = asyncio.ensure_future(outcome(c.get(key("a", "X"), models.V1Pod)))
    await sa.settle()
    for _ in range(4):
        if not reader.done():
            sa.fire()
            await sa.settle()
    sa.check(reader.done(), "waiting for the sync ends when the source answers")
    v, e = reader.result()
    sa.check(e is None and v is objects[2], STORED, v, e)
    sa.check(not t.done(), "the cache runs until it is cancelled")


async def c06():
    """Requests for kinds before, during and after the start, several at once."""
    s = serve()
    c = cache.new()
    kinds = (models.V1Pod, models.V1Node)
    asked = [[], []]
    t = None

    async def whole():
        try:
            await c.start()
        finally:
            left = running()
            sa.check(not left, "nothing is left running when the cache has ended", origins(left))
    for _ in range(4):
        await sa.point()
        k = sa.choose(4, "step")
        if k == 3:
            sa.assume(t is None)
            t = asyncio.ensure_future(whole())
        elif k == 2:
            sa.assume(len(asked[0]) + len(asked[1]) < 3)
            for _ in range(2):
                asked[0].append(asyncio.ensure_future(c.get_informer(kinds[0])))
        else:
            sa.assume(len(asked[0]) + len(asked[1]) < 3)
            asked[k].append(asyncio.ensure_future(c.get_informer(kinds[k])))
        if sa.flag("let it go on"):
            await sa.settle()
    sa.assume(t is not None)
    await sa.settle()
    for _ in range(4):
        if not all([a.done() for l in asked for a in l]):
            sa.fire()
            await sa.settle()
    got = []
    for i in (0, 1):
        for a in asked[i]:
            sa.check(a.done(), "waiting for the sync ends when the source answers")
            sa.check(a.result() is asked[i][0].result(), "all requests for one kind get the same informer")
        if asked[i]:
            got.append(asked[i][0].result())
            sa.check(got[-1].has_synced(), "every informer obtained is run")
    sa.check(len(got) < 2 or got[0] is not got[1], "each kind has its own informer")
    names = [x[0] for x in s.lists]
    sa.check(len(names) == len(got) and (PODS in names) == (len(asked[0]) > 0) and ("list_node" in names) == (len(asked[1]) > 0),
             "one informer per kind is run, once", names)
    sa.check(not t.done(), "the cache runs until it is cancelled")
    await synced(c)
    t.cancel()
    await sa.settle()
    sa.check(t.done() and t.cancelled(), "cancelling the cache reaches the caller")
    sa.check(not running(), "nothing is left running when the cache has ended", origins(running()))
    sa.check(s.closed == len(s.watches), "every watch is closed when the cache has ended", s.closed)


async def c08():
    """The period given to the informers, for every configured period and every draw.

    The bounds leave room for the rounding of the constants (1.1 - 0.9 is not 0.2).
    """
    serve()
    p = sa.num("period", 0, lo_open=True)
    c = cache.new(resync=p)
    i = await c.get_informer(models.V1Pod)
    got = i._resync_check_period
    sa.check(sa.entail(got, ">=", p * 0.8999999) and sa.entail(got, "<=", p * 1.1000001),
             "informers resync at the configured period within ten percent", got)
    if sa.flag("twice"):
        i2 = await c.get_informer(models.V1Node)
        sa.check(sa.entail(i2._resync_check_period, ">=", p * 0.8999999) and sa.entail(i2._resync_check_period, "<=", p * 1.1000001),
                 "informers resync at the configured period within ten percent", i2._resync_check_period)


async def c09():
    s = serve()
    s.version = sa.pick("7", "", None)
    k = sa.choose(4, "namespace")
    ns = (None, "", "a", None)[k]
    c = cache.new() if k == 3 else cache.new(namespace=ns)
    await c.get_informer(models.V1Pod)
    t = asyncio.ensure_future(c.start())
    await sa.settle()
    for again in (0, 1):
        sa.check(len(s.lists) == 1 + again and len(s.watches) == 1 + again, "the informer lists and watches", s.lists, s.watches)
        l, w = s.lists[again], s.watches[again]
        sa.check(l[0] == w[0] == ("list_namespaced_pod" if ns else PODS), "list and watch call the operation of their scope", l[0], w[0])
        for x in (l, w):
            where = list(x[1]) + ([x[2]["namespace"]] if "namespace" in x[2] else [])
            sa.check(where == (["a"] if ns else []), "list and watch are restricted to the namespace, or to none", x)
        sa.check(l[2].get("resource_version") == "0" and w[2].get("resource_version", "left out") == s.version and "timeout_seconds" in w[2],
                 "the options of the reflector reach the call", l[2], w[2])
        extra = [o for x in (l, w) for o in x[2] if o not in ("namespace", "resource_version", "timeout_seconds")]
        sa.check(not extra and "timeout_seconds" not in l[2], "nothing is added to the options of the reflector", extra)
        if not again:
            s.event.give(None)               # a watch that closes at once leads to a new list
            await sa.settle()
            sa.check(sa.fire(), "the reflector pauses and lists again")
            await sa.settle()


# ------------------------------------------------------------------ manager
class FakeCache:
    def __init__(self, log):
        self.log = log
        self.gate = Gate()
        self.sync = Gate()
        self.on = 0
        self.starts = 0

    async def start(self):
        self.starts += 1
        self.on += 1
        try:
            return await self.gate.wait()
        finally:
            await asyncio.sleep(0)
            self.on -= 1

    async def wait_for_cache_sync(self):
        return await self.sync.wait()


class Runnable:
    def __init__(self, c):
        self.cache = c
        self.gate = Gate()
        self.on = 0
        self.starts = 0
        self.got = None

    def inject_cache(self, c):
        self.got = c

    async def start(self):
        sa.check(self.cache.starts == 1 and self.cache.on == 1, "a controller is started while the cache runs")
        self.starts += 1
        self.on += 1
        try:
            return await self.gate.wait()
        finally:
            await asyncio.sleep(0)
            self.on -= 1


async def c07():
    c = FakeCache([])
    cache.new = lambda **kw: c
    m = manager.new()
    sa.check(m.get_cache() is c, "the manager gives access to its cache")
    rs = []
    for _ in range(sa.choose(3, "controllers")):
        r = Runnable(c)
        m.add(r)
        sa.check(r.got is c, "a controller gets the manager's cache")
        rs.append(r)

    async def whole():
        try:
            return await m.start()
        finally:
            sa.check(c.on == 0, "when start has ended the cache no longer runs")
            for r in rs:
                sa.check(r.on == 0, "when start has ended no controller runs")
    t = asyncio.ensure_future(whole())
    await sa.settle()
    phase = 0
    END = "an error of the cache or a controller ends start with that error"
    while True:
        await sa.point()
        sa.check(not t.done(), "start goes on until it is cancelled or something fails")
        k = sa.choose(7, "step")
        if k == 6:
            # the cache ends by itself, without a failure
            sa.assume(phase == 0 and c.gate.open())
            c.gate.give(None)
            await sa.settle()
            for r in rs:
                sa.check(r.starts == 0, "no controller is started before the cache is synced")
            sa.assume(not t.done())
            c.sync.give(False)
            await sa.settle()
            sa.check(t.done() and not t.cancelled() and t.exception() is not None, "start fails if the cache cannot be synced")
            for r in rs:
                sa.check(r.starts == 0, "no controller is started before the cache is synced")
            break
        if k == 0:
            if sa.flag("while it goes on"):
                sa.assume(phase == 0 and c.sync.open())
                c.sync.give(True)
                for _ in range(sa.choose(4, "turns")):
                    await asyncio.sleep(0)
            t.cancel()
            await sa.settle()
            sa.check(t.done() and t.cancelled(), "cancelling start reaches the caller")
            break
        elif k == 1:
            sa.assume(phase == 0)
            sa.check(c.sync.open() and c.starts == 1, "start runs the cache and waits for its sync")
            for r in rs:
                sa.check(r.starts == 0, "no controller is started before the cache is synced")
            phase = 1
            c.sync.give(True)
            await sa.settle()
            for r in rs:
                sa.check(r.starts == 1 and r.on == 1, "every controller is started once")
        elif k == 2:
            sa.assume(c.gate.open())
            c.gate.fail()
            await sa.settle()
            sa.check(t.done() and not t.cancelled() and isinstance(t.exception(), Boom), END)
            break
        elif k == 3:
            sa.assume(phase == 1 and len(rs) > 0)
            rs[sa.choose(len(rs), "which")].gate.fail()
            await sa.settle()
            sa.check(t.done() and not t.cancelled() and isinstance(t.exception(), Boom), END)
            break
        elif k == 4:
            sa.assume(phase == 0)
            if sa.flag("sync fails"):
                c.sync.fail()
            else:
                c.sync.give(False)
            await sa.settle()
            sa.check(t.done() and not t.cancelled() and t.exception() is not None, "start fails if the cache cannot be synced")
            for r in rs:
                sa.check(r.starts == 0, "no controller is started before the cache is synced")
            break
        else:
            sa.assume(phase == 1)
            r, e = await outcome(m.start())
            for r in rs:
                sa.check(r.starts == 1, "every controller is started once")
            sa.check(c.starts == 1, "the cache is started once")
    sa.check(c.on == 0 and not running(), "when start has ended nothing runs", origins(running()))


# ------------------------------------------------------------------ kinds
class FreeClient(client._Client):
    """A kind without a class of its objects."""
    gvk = schema.GroupVersionKind("g", "v2", "Free")
    object_type = None
    api_cls = api.CoreV1Api

    def _get_lister(self, namespace):
        return self._api_client.list_free


async def c11():
    """The kinds known: one client and one type of object each."""
    serve()
    KIND = "a type of objects and its kind belong to each other"
    for cls, t, name in ((None, models.V1Pod, "Pod"), (NodeClient, models.V1Node, "Node")):
        g = client.gvk_for_object(t)
        sa.check(g == schema.GroupVersionKind("", "v1", name) and g.group == "" and g.version == "v1" and g.kind == name, KIND, g)
        own = client.rest_client_for_gvk(g)
        sa.check(own.gvk == g and own.object_type is t and (cls is None or isinstance(own, cls)), "a kind is served by its own client", name)
    g = schema.GroupVersionKind("g", "v2", "Free")
    sa.check(isinstance(client.rest_client_for_gvk(g), FreeClient), "a kind is served by its own client")
    k = sa.choose(3, "wrong use")
    if k == 0:
        r, e = outcome_sync(client.gvk_for_object, models.V1ObjectMeta)
        sa.check(e is not None, "a type that belongs to no kind is refused", r)
    elif k == 1:
        r, e = outcome_sync(client.rest_client_for_gvk, schema.GroupVersionKind("", "v2", "Pod"))
        sa.check(e is not None, "a kind without a client is refused", r)
    else:
        which = sa.choose(2, "kind defined again")

        def define():
            class Second(client._Client):
                gvk = schema.GroupVersionKind("", "v1", "Pod") if which == 0 else schema.GroupVersionKind("g", "v2", "Free")
                object_type = models.V1ObjectMeta
                api_cls = api.CoreV1Api

                def _get_lister(self, namespace):
                    return self._api_client.list_second
        r, e = outcome_sync(define)
        sa.check(e is not None, "a second client for a kind is refused")
        own = client.rest_client_for_gvk(client.gvk_for_object(models.V1Pod))
        sa.check(own.object_type is models.V1Pod and own.gvk.kind == "Pod", "a kind is served by its own client")
        sa.check(isinstance(client.rest_client_for_gvk(g), FreeClient), "a kind is served by its own client")
        r, e = outcome_sync(client.gvk_for_object, models.V1ObjectMeta)
        sa.check(e is not None, "a client that was refused changes nothing", r)


async def c11_use():
    """A cache of an unknown kind; caches before their start."""
    serve()
    c = cache.new()
    r, e = await outcome(c.get_informer(models.V1ObjectMeta))
    sa.check(e is not None, "a type that belongs to no kind is refused", r)
    r, e = await outcome(c.get(key("ns", "n"), models.V1ObjectMeta))
    sa.check(e is not None and not isinstance(e, asyncio.CancelledError), "a type that belongs to no kind is refused", r)
