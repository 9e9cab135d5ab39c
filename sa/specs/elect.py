"""Drivers for leader election."""
import asyncio
import sa
from aiok8s.leaderelection import leaderelection, resourcelock
from aiok8s.leaderelection.leaderelection import LeaderCallbacks, LeaderElectionConfig, LeaderElector
from kubernetes_asyncio import _hook
from kubernetes_asyncio.client import exceptions, models
from specs.common import *
from specs.reflect import Gate, Boom

ME = "node-1"
LEASE, DEADLINE, RETRY = 15.5, 10, 2      # the record tells whole seconds
SAFE = "a lease is taken only if it is free, expired or the candidate's own"


class Lock:
    """A lock whose every operation waits for the driver."""

    def __init__(self):
        self.get_gate = Gate()
        self.put_gate = Gate()
        self.asked_at = None
        self.written = None
        self.how = None

    def identity(self):
        return ME

    def describe(self):
        return "the lock"

    async def get(self):
        self.asked_at = sa.now()
        return await self.get_gate.wait()

    async def create(self, record):
        self.written, self.how = record, "create"
        return await self.put_gate.wait()

    async def update(self, record):
        self.written, self.how = record, "update"
        return await self.put_gate.wait()


class Lead:
    """The callbacks and what was seen of them."""

    def __init__(self):
        self.starts = 0
        self.on = 0
        self.stops = 0
        self.reports = []
        self.gate = Gate()
        self.stopping = Gate()
        self.slow_stop = False
        self.cancelled = False

    async def started(self):
        self.starts += 1
        self.on += 1
        try:
            return await self.gate.wait()
        except asyncio.CancelledError:
            self.cancelled = True
            raise
        finally:
            for _ in range(3):
                await asyncio.sleep(0)
            self.on -= 1

    async def stopped(self):
        await asyncio.sleep(0)
        sa.check(self.on == 0 or self.cancelled, "the leading task is cancelled before on_stopped_leading is called")
        self.stops += 1

    async def new_leader(self, who):
        self.reports.append(who)


class Raw:
    """The raw text of one record; texts are compared, nothing else."""


def left():
    """The tasks left, but for a timer nobody waits for any more."""
    return [o for o in origins(running()) if "Timer." not in str(o)]


class World:
    def __init__(self, release=False, reports=True):
        self.lock = Lock()
        self.lead = Lead()
        self.on_reports = reports
        l = self.lead
        self.e = LeaderElector(LeaderElectionConfig(
            lock=self.lock, callbacks=LeaderCallbacks(l.started, l.stopped, l.new_leader if reports else None), name="n",
            lease_duration=LEASE, renew_deadline=DEADLINE, retry_period=RETRY, release_on_cancel=release))
        self.rec = None            # the record in the lock
        self.raw = None
        self.holder = None         # the holder last observed
        self.seen = None           # when the record was first observed, None if it was not
        self.stale = 0             # attempts since the record last changed
        self.told = None           # the holder last reported

    def put(self, holder):
        self.rec = {"holderIdentity": holder, "leaseDurationSeconds": 15, "renewTime": 990.5,
                    "acquireTime": 900.25, "leaderTransitions": 3}
        if holder is None:
            self.rec = {"leaderTransitions": self.rec["leaderTransitions"]}
        self.raw = Raw()
        self.seen = None
        self.stale = 0

    async def run(self):
        try:
            return await self.e.run()
        finally:
            sa.check(self.lead.stops == 1, "on_stopped_leading is called once, however run ends", self.lead.stops)
            sa.check(self.lead.on == 0, "the leading task is cancelled and awaited when run ends")

    def go(self):
        self.t = asyncio.ensure_future(self.run())

    def reported(self, exact):
        """Every report names the holder observed, once per change."""
        for who in self.lead.reports:
            sa.check(who != self.told, "on_new_leader is called only when the observed holder changes", who)
            sa.check(who == self.holder, "on_new_leader is called with the holder observed", who, self.holder)
            self.told = who
        self.lead.reports = []
        if exact and self.on_reports:
            sa.check(self.told == self.holder, "on_new_leader is called when the observed holder changes", self.told, self.holder)

    def right_record(self, start):
        """The record just written, against the one it replaces; start: when the attempt began."""
        r, old = self.lock.written, self.rec
        sa.check(r["holderIdentity"] == ME and r["leaseDurationSeconds"] == 15,
                 "a record written names the candidate and its lease duration", r)
        sa.check(sa.entail(r["renewTime"], ">=", start) and sa.entail(r["renewTime"], "<=", sa.now()),
                 "a record written carries the current renew time", r["renewTime"])
        fresh = sa.entail(r["acquireTime"], ">=", start) and sa.entail(r["acquireTime"], "<=", sa.now())
        if old is None:
            sa.check(self.lock.how == "create", "a missing record is created")
            sa.check(fresh, "taking the lease sets its acquire time", r["acquireTime"])
            sa.check(r["leaderTransitions"] == 0, "a new record counts from zero", r["leaderTransitions"])
            return
        sa.check(self.lock.how == "update", "an existing record is updated")
        if old.get("holderIdentity") == ME:
            sa.check(sa.entail(r["acquireTime"], "==", old["acquireTime"]), "renewing keeps the acquire time", r["acquireTime"])
            sa.check(sa.entail(r["leaderTransitions"], "==", old["leaderTransitions"]), "renewing keeps the transitions",
                     r["leaderTransitions"])
        else:
            sa.check(fresh, "taking the lease sets its acquire time", r["acquireTime"])
            sa.check(sa.entail(r["leaderTransitions"], "==", old["leaderTransitions"] + 1),
                     "taking over counts one transition", r["leaderTransitions"])

    def wrote(self):
        self.rec = self.lock.written
        self.rec.update(renewTime=990.5, acquireTime=900.25, leaderTransitions=3)  # what it said no longer matters
        self.raw = Raw()
        self.holder = ME
        self.seen = None
        self.stale = 0
        self.lock.written = None

    async def cancel(self, turns=0):
        for _ in range(turns):
            await asyncio.sleep(0)
        self.t.cancel()
        await sa.settle()
        sa.check(self.t.done() and self.t.cancelled(), "cancelling run reaches the caller")
        sa.check(not left(), "nothing is left running when run has ended", left())


async def attempt(w, leader=False, cancel=False):
    """The lock is being read: one attempt. True if the record was written, None if run was cancelled."""
    lock = w.lock
    start = lock.asked_at
    lock.asked_at = None
    k = sa.choose(6, "record")
    sa.assume(w.stale < 2 or 0 < k < 4)
    if leader:
        sa.assume(k == 1 or k == 4 or k == 5)
    w.stale += 1
    if k == 5:
        lock.get_gate.fail()
        if cancel and sa.flag("cancel before it goes on"):
            await w.cancel(sa.choose(3, "turns"))
            return None
        await sa.settle()
        sa.check(w.lock.written is None, "an attempt that cannot read the record fails")
        w.reported(not leader)
        return False
    if k == 0:
        w.rec = w.raw = w.seen = None
    elif k == 1:
        w.put("Node-1")
    elif k == 2:
        w.put(None)
    elif k == 3:
        w.put(ME)
    if w.raw is not None:
        if w.seen is None:
            w.seen = sa.now()
        w.holder = w.rec.get("holderIdentity")
    lock.get_gate.give((w.rec, w.raw))
    if cancel and sa.flag("cancel before it goes on"):
        await w.cancel(sa.choose(3, "turns"))
        return None
    await sa.settle()
    if w.lock.written is None:
        sa.check(w.rec is not None and w.holder is not None and w.holder != ME, "a free or own lease is taken")
        w.reported(not leader)
        return False
    if w.rec is not None and w.holder is not None and w.holder != ME:
        sa.check(sa.entail(sa.now() - w.seen, ">=", LEASE), SAFE, sa.now() - w.seen)
    w.right_record(start)
    sa.check(w.lock.put_gate.open(), "the record is written")
    if leader and sa.flag("the write takes for ever"):
        return False
    if sa.flag("write fails"):
        lock.put_gate.fail()
        lock.written = None
        if cancel and sa.flag("cancel before it goes on"):
            await w.cancel(sa.choose(3, "turns"))
            return None
        await sa.settle()
        w.reported(not leader)
        return False
    lock.put_gate.give(None)
    w.wrote()
    if cancel and sa.flag("cancel before it goes on"):
        await w.cancel(sa.choose(3, "turns"))
        return None
    await sa.settle()
    w.reported(True)
    return True


async def acquire(w, cancel):
    """Attempts until the lease is taken. False if run was cancelled."""
    while True:
        await sa.settle()
        await sa.point()
        sa.check(not w.t.done(), "the candidate goes on until it leads")
        sa.check(w.lead.starts == 0 and w.lead.stops == 0, "on_started_leading comes only after the lease was acquired")
        if cancel and sa.flag("cancel"):
            await w.cancel()
            return False
        if not w.lock.get_gate.open():
            sa.check(sa.fire(), "the candidate goes on until it leads")
            continue
        if sa.flag("the lock is slow"):
            sa.advance(sa.num("slow", 0))
        r = await attempt(w, False, cancel)
        if r is None:
            return False
        if r:
            break
    sa.check(w.lead.starts == 1, "on_started_leading is started once the lease was acquired", w.lead.starts)
    sa.check(w.e.is_leader(), "a candidate that acquired the lease is the leader")
    return True


async def l01():
    w = World(reports=sa.flag("reports new leaders"))
    w.go()
    await acquire(w, False)


async def l04_acquire():
    w = World()
    w.go()
    await acquire(w, True)


async def leading(cancel, release=False, slow=True):
    """A leader renews, for ever or until it cannot."""
    w = World(release)
    w.go()
    await sa.settle()
    start = w.lock.asked_at
    w.lock.get_gate.give((None, None))
    await sa.settle()
    w.right_record(start)
    w.lock.put_gate.give(None)
    w.wrote()
    await sa.settle()
    w.reported(True)
    sa.check(w.lead.starts == 1, "on_started_leading is started once the lease was acquired", w.lead.starts)
    since = sa.now()               # the last successful renewal
    lost = False                   # someone else's record was seen since
    k = sa.choose(3, "leading task")
    if k == 1:
        w.lead.gate.fail()
    elif k == 2:
        w.lead.gate.give(None)
    while True:
        await sa.settle()
        await sa.point()
        if w.t.done():
            break
        sa.check(w.lead.starts == 1 and w.lead.stops == 0 and not w.lead.cancelled, "a leader that renews in time keeps leading")
        sa.check(not sa.entail(sa.now() - since, ">", RETRY + DEADLINE), "a leader that cannot renew in time steps down", sa.now() - since)
        if cancel and sa.flag("cancel"):
            await w.cancel()
            return
        if w.lock.get_gate.open() and sa.flag("the lock answers"):
            r = await attempt(w, True, cancel)
            if r is None:
                return
            if r:
                since = sa.now()
                lost = False
            elif w.holder != ME:
                lost = True
        else:
            sa.check(sa.fire(), "a leader that cannot renew in time steps down")
        if not w.lock.get_gate.open():
            sa.check(lost or w.t.done() or not sa.entail(sa.now() - since, ">", RETRY + DEADLINE),
                     "a leader renews again after each retry period")
    sa.check(not w.t.cancelled() and w.t.exception() is None, "losing the lease ends run without an error")
    sa.check(lost or sa.entail(sa.now() - since, ">=", DEADLINE), "a leader that renews in time keeps leading", sa.now() - since)
    w.reported(True)
    sa.check(not left(), "nothing is left running when run has ended", left())


async def l03():
    await leading(False)


async def l04():
    await leading(True)


async def l02_pace():
    """Renewals follow each other at the retry period."""
    w = World()
    w.go()
    await sa.settle()
    w.lock.get_gate.give((None, None))
    await sa.settle()
    w.lock.put_gate.give(None)
    w.wrote()
    await sa.settle()
    while True:
        await sa.point()
        t0 = sa.now()
        for _ in range(6):
            if not w.lock.get_gate.open():
                sa.check(sa.fire(), "a leader renews again after each retry period")
                await sa.settle()
        sa.check(w.lock.get_gate.open() and not sa.entail(sa.now() - t0, ">", RETRY), "a leader renews again after each retry period",
                 sa.now() - t0)
        w.lock.get_gate.give((w.rec, w.raw))
        await sa.settle()
        w.right_record(t0)
        w.lock.put_gate.give(None)
        w.wrote()
        await sa.settle()
        t0 = None


async def l04_release():
    """Releasing the lease when run ends."""
    w = World(True)
    w.go()
    await sa.settle()
    w.lock.get_gate.give((None, None))
    await sa.settle()
    w.lock.put_gate.give(None)
    w.wrote()
    await sa.settle()
    if sa.flag("renewed once"):
        sa.fire()
        await sa.settle()
        if w.lock.get_gate.open():
            w.lock.get_gate.give((w.rec, w.raw))
            await sa.settle()
            w.lock.put_gate.give(None)
            w.wrote()
            await sa.settle()
    n = w.rec["leaderTransitions"]
    lost = sa.flag("lost to another")
    if lost:
        for _ in range(4):
            if not w.lock.get_gate.open():
                sa.fire()
                await sa.settle()
        w.put("node-10")
        w.lock.get_gate.give((w.rec, w.raw))
        await sa.settle()
    w.t.cancel()
    await sa.settle()
    if lost:
        sa.check(w.lock.written is None, "a lease held by another is not released")
    else:
        r = w.lock.written
        sa.check(r is not None and not r.get("holderIdentity") and r["leaderTransitions"] == n,
                 "a released lease names no holder and keeps its transitions", r)
        if sa.flag("release fails"):
            w.lock.put_gate.fail()
        else:
            w.lock.put_gate.give(None)
        await sa.settle()
    sa.check(w.t.done() and w.t.cancelled(), "cancelling run reaches the caller")
    sa.check(not left(), "nothing is left running when run has ended", left())


# ------------------------------------------------------------------ configuration
async def l05():
    l, d, r = sa.num("lease"), sa.num("deadline"), sa.num("retry")
    cb = LeaderCallbacks(outcome if sa.flag("started") else None, outcome if sa.flag("stopped") else None,
                         outcome if sa.flag("new") else None)
    lock = Lock() if sa.flag("lock") else None
    v, e = outcome_sync(LeaderElector, LeaderElectionConfig(lock=lock, callbacks=cb, name="n", lease_duration=l,
                                                            renew_deadline=d, retry_period=r))
    given = lock is not None and cb.on_started_leading is not None and cb.on_stopped_leading is not None
    ok = given and l > d and d > leaderelection.JITTER_FACTOR * r and r > 0
    if ok:
        sa.check(e is None, "a safe configuration is accepted", e)
    else:
        sa.check(e is not None, "an unsafe configuration is rejected", l, d, r)


async def l05_factor():
    sa.check(sa.entail(leaderelection.JITTER_FACTOR, ">", 1), "the jitter factor leaves room between renewals",
             leaderelection.JITTER_FACTOR)


# ------------------------------------------------------------------ config map lock
class Server:
    """Config maps with versions; answers calls by position or by name."""

    def __init__(self):
        self.cm = None
        self.version = 0
        self.fails = 0             # status of the next answer

    async def call(self, op, args, kw):
        await asyncio.sleep(0)
        if self.fails:
            status, self.fails = self.fails, 0
            raise exceptions.ApiException(status=status)
        names = {"read_namespaced_config_map": ("name", "namespace"),
                 "create_namespaced_config_map": ("namespace", "body"),
                 "replace_namespaced_config_map": ("name", "namespace", "body"),
                 "patch_namespaced_config_map": ("name", "namespace", "body")}[op]
        a = dict(zip(names, args))
        a.update(kw)
        sa.check(a["namespace"] == "ns", "the configured namespace is used", a["namespace"])
        if op == "create_namespaced_config_map":
            body = a["body"]
            sa.check(body.metadata.name == "lock" and body.metadata.namespace in ("ns", None), "the configured name is used")
            if self.cm is not None:
                raise exceptions.ApiException(status=409)
            return self.store(body)
        sa.check(a["name"] == "lock", "the configured name is used", a["name"])
        if self.cm is None:
            raise exceptions.ApiException(status=404)
        if op == "read_namespaced_config_map":
            return self.copy(self.cm)
        body = a["body"]
        if body.metadata.resource_version is not None and body.metadata.resource_version != self.cm.metadata.resource_version:
            raise exceptions.ApiException(status=409)
        return self.store(body)

    def copy(self, cm):
        m = cm.metadata
        a = m.annotations
        return models.V1ConfigMap(data=cm.data, metadata=models.V1ObjectMeta(
            name=m.name, namespace=m.namespace, annotations=None if a is None else dict(a), resource_version=m.resource_version))

    def store(self, body):
        c = self.copy(body)
        self.version = 1 - self.version
        c.metadata.resource_version = "v%d" % self.version
        self.cm = c
        return self.copy(c)


KEY = resourcelock.LEADER_ELECTION_RECORD_ANNOTATION_KEY
BACK = "the record written is the record read back"


def some_record(who):
    return {"holderIdentity": who, "leaderTransitions": 3, "renewTime": 1.5}


async def l06():
    """Any order of get, create and update, with the config map missing, bare or annotated at first."""
    s = Server()
    _hook.server = s
    sa.check(KEY == "control-plane.alpha.kubernetes.io/leader", "the leader annotation is used", KEY)
    lock = resourcelock.new("ns", "lock", resourcelock.ResourceLockConfig(identity="me"))
    sa.check(lock.identity() == "me", "the lock tells its identity")
    k = sa.choose(4, "config map at first")
    extra = False
    want = None
    if k:
        notes = None if k == 1 else {} if k == 2 else {"other": "kept", "empty": ""}
        extra = k == 3
        s.cm = models.V1ConfigMap(data={"some": "data"}, metadata=models.V1ObjectMeta(
            name="lock", namespace="ns", annotations=notes, resource_version="v0"))
    used = False                       # a get or create has succeeded
    fresh = False                      # the lock knows the current config map
    for _ in range(4):
        await sa.point()
        op = sa.choose(5, "operation")
        fail = (0, 500, 410)[sa.choose(3, "the server fails")]
        s.fails = fail
        if op == 0:
            r, e = await outcome(lock.get())
            if fail:
                sa.check(e is not None, "an error of the server reaches the caller", r)
            else:
                sa.check(e is None, "a missing config map or annotation reads as no record", e)
                rec, raw = r
                if want is None:
                    sa.check(rec is None, "a missing config map or annotation reads as no record", rec)
                    sa.check(not raw, "a missing config map or annotation reads as no record", raw)
                else:
                    sa.check(rec == want, BACK, rec)
                    sa.check(raw is not None and raw == s.cm.metadata.annotations[KEY], "the raw text is that of the annotation", raw)
                fresh = True
                used = s.cm is not None
        elif op == 1:
            sa.assume(fresh and want is None)
            rec = some_record("a")
            r, e = await outcome(lock.create(rec))
            if fail:
                sa.check(e is not None, "an error of the server reaches the caller", r)
                fresh = False
            else:
                sa.check(e is None, "a record is created where none was read", e)
                want = some_record("a")
                used = True
                fresh = True
        elif op == 2:
            rec = some_record("b")
            r, e = await outcome(lock.update(rec))
            if not used:
                sa.check(e is not None, "update before any get or create fails", r)
                s.fails = 0
            elif fail:
                sa.check(e is not None, "an error of the server reaches the caller", r)
                fresh = False
            elif fresh:
                sa.check(e is None, "a record is updated where one was read", e)
                want = some_record("b")
            else:
                sa.assume(False)
        elif op == 4:
            # the config map is deleted by someone
            sa.assume(s.cm is not None and not fail)
            s.cm = None
            want = None
            fresh = False
            extra = False
            k = 0
        else:
            # another candidate writes: what was read before is out of date
            sa.assume(s.cm is not None and not fail)
            c = s.copy(s.cm)
            want = some_record("c")
            notes = dict(c.metadata.annotations or {})
            notes[KEY] = _other_text(want)
            c.metadata.annotations = notes
            s.store(c)
            fresh = False
        s.fails = 0
        if s.cm is not None and extra:
            sa.check(s.cm.metadata.annotations.get("other") == "kept" and s.cm.metadata.annotations.get("empty") == "", "other annotations are preserved")
        if k and s.cm is not None:
            sa.check(s.cm.data is not None and s.cm.data["some"] == "data", "the rest of the config map is preserved")
        if want is None:
            sa.check(s.cm is None or not s.cm.metadata.annotations or KEY not in s.cm.metadata.annotations, "a failed write stores nothing")


def _other_text(rec):
    import json
    return json.dumps(rec)


async def l06_stale():
    """A record written by another since it was read is not overwritten."""
    s = Server()
    _hook.server = s
    lock = resourcelock.new("ns", "lock", resourcelock.ResourceLockConfig(identity="me"))
    text = _other_text(some_record("x"))
    s.cm = models.V1ConfigMap(metadata=models.V1ObjectMeta(name="lock", namespace="ns", annotations={KEY: text}, resource_version="v0"))
    r, e = await outcome(lock.get())
    sa.check(e is None and r[0] == some_record("x") and r[1] == text, BACK, r, e)
    c = s.copy(s.cm)
    c.metadata.annotations[KEY] = _other_text(some_record("y"))
    s.store(c)
    r, e = await outcome(lock.update(some_record("me")))
    sa.check(e is not None, "a record changed since it was read is not overwritten", r)
    r, e = await outcome(lock.get())
    sa.check(e is None and r[0] == some_record("y"), BACK, r, e)


# ------------------------------------------------------------------ is_leader and the release
async def l07():
    """is_leader through a whole life; the lease is given back exactly if asked for and still held."""
    release = sa.flag("release when run ends")
    w = World(release)
    LEADS = "is_leader is true exactly while the record last seen or written names the candidate"
    sa.check(not w.e.is_leader(), LEADS)
    w.go()
    await sa.settle()
    first = sa.choose(3, "first record")
    if first == 0:
        w.lock.get_gate.give((None, None))
    else:
        # another's lease, given up (1) or held (2)
        w.put("node" if first == 2 else None)
        w.lock.get_gate.give((w.rec, w.raw))
    await sa.settle()
    sa.check(not w.e.is_leader(), LEADS)
    if first == 2:
        sa.check(w.lock.written is None, SAFE)
        w.t.cancel()
        await sa.settle()
        sa.check(w.lock.written is None, "a lease that was not held is not given back")
        sa.check(w.t.done() and not w.e.is_leader(), LEADS)
        return
    if sa.flag("cannot be taken"):
        w.lock.written = None
        w.lock.put_gate.fail()
        await sa.settle()
        sa.check(not w.e.is_leader(), LEADS)
        w.t.cancel()
        await sa.settle()
        sa.check(w.lock.written is None, "a lease that was not held is not given back")
        sa.check(w.t.done() and not w.e.is_leader(), LEADS)
        return
    w.lock.put_gate.give(None)
    w.wrote()
    await sa.settle()
    sa.check(w.e.is_leader() and w.lead.starts == 1, LEADS)
    n = w.rec["leaderTransitions"]
    for _ in range(4):
        if not w.lock.get_gate.open():
            sa.fire()
            await sa.settle()
    sa.check(w.lock.get_gate.open(), "a leader renews again after each retry period")
    sa.check(w.e.is_leader(), LEADS)
    end = sa.choose(4, "end")
    mine = True
    if end == 0:
        # lost to another
        w.put("node-1 ")
        w.lock.get_gate.give((w.rec, w.raw))
        await sa.settle()
        mine = False
        sa.check(not w.e.is_leader(), LEADS)
        w.lock.written = None
        for _ in range(30):
            if w.t.done() or w.lock.put_gate.open():
                break
            if w.lock.get_gate.open():
                w.lock.get_gate.give((w.rec, w.raw))
                await sa.settle()
            sa.check(not w.e.is_leader(), LEADS)
            sa.fire()
            await sa.settle()
    elif end == 1:
        # the lock does not answer until the deadline
        w.lock.written = None
        for _ in range(6):
            if w.t.done() or w.lock.put_gate.open():
                break
            sa.check(w.e.is_leader(), LEADS)
            sa.fire()
            await sa.settle()
    elif end == 2:
        w.lock.written = None
        w.t.cancel()
        await sa.settle()
    else:
        # in the middle of a renewal
        w.lock.get_gate.give((w.rec, w.raw))
        await sa.settle()
        sa.check(w.lock.put_gate.open() and w.e.is_leader(), LEADS)
        w.lock.written = None
        w.t.cancel()
        await sa.settle()
    r = w.lock.written
    if not release or not mine:
        sa.check(r is None, "a lease is given back only if asked for and still held", r)
    else:
        sa.check(w.lock.put_gate.open() and r is not None and not r.get("holderIdentity") and r["leaderTransitions"] == n,
                 "a lease still held is given back when run ends, if asked for", r)
        sa.check(not w.t.done(), "run ends only after the lease was given back")
        if sa.flag("release fails"):
            w.lock.put_gate.fail()
        else:
            w.lock.put_gate.give(None)
            await sa.settle()
            sa.check(not w.e.is_leader(), LEADS)
        await sa.settle()
    sa.check(w.t.done(), "run ends after the lease was given back")
    sa.check(not left(), "nothing is left running when run has ended", left())
