"""Shared helpers of the drivers."""
import asyncio
import sa


class Falsy:
    """Objects stored and passed on are told apart from None by identity: these are false in a condition."""

    def __bool__(self):
        return False


class Full:
    """What every metadata has besides what a driver gives it."""
    name = namespace = uid = resource_version = generation = generate_name = self_link = None
    labels = annotations = owner_references = finalizers = managed_fields = None
    creation_timestamp = deletion_timestamp = deletion_grace_period_seconds = None
    _continue = remaining_item_count = None


class VTimer:
    def __init__(self, d):
        self._c = asyncio.Queue(maxsize=1)
        self._task = asyncio.ensure_future(self._run(d))

    async def _run(self, d):
        await asyncio.sleep(d)
        self._c.put_nowait(sa.now())

    def c(self):
        return self._c

    def stop(self):
        self._task.cancel()
        return True

    def reset(self, d):
        self._task.cancel()
        self._task = asyncio.ensure_future(self._run(d))
        return True


class VTicker:
    """A ticker that ticks whenever the driver says so."""

    def __init__(self, clock, d):
        self._c = asyncio.Queue(maxsize=1)
        self.period = d
        self.stopped = False

    def c(self):
        return self._c

    def stop(self):
        self.stopped = True

    def tick(self):
        if not self.stopped and not self._c.full():
            self._c.put_nowait(sa.now())


class VClock:
    """The abstract clock: arbitrary epoch, advanced only by the driver."""

    def __init__(self):
        self.tickers = []

    def now(self):
        return sa.now()

    def since(self, ts):
        return sa.now() - ts

    def new_timer(self, d):
        return VTimer(d)

    def new_ticker(self, d):
        t = VTicker(self, d)
        self.tickers.append(t)
        return t


async def must(label, aw, timers=0):
    """Await something that has to complete (after at most `timers` clock events)."""
    sa.must(label, timers)
    try:
        return await aw
    finally:
        sa.free()


async def outcome(aw):
    """(result, exception) of an awaitable."""
    try:
        return (await aw, None)
    except asyncio.CancelledError as e:
        return (None, e)
    except Exception as e:
        return (None, e)


def outcome_sync(f, *args, **kw):
    try:
        return (f(*args, **kw), None)
    except Exception as e:
        return (None, e)


def running(prefix=None):
    """Tasks still pending whose code belongs to the library."""
    return [t for t in sa.tasks() if sa.inrepo(t)]


def origins(ts):
    return [sa.origin(t) for t in ts]
