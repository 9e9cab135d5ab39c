"""Model of asyncio (CPython 3.12 semantics) on top of the abstract event loop."""
import _sa
import collections
import heapq

Future = _sa.Future
Task = _sa.Task
CancelledError = _sa.CancelledError
InvalidStateError = _sa.InvalidStateError
TimeoutError = _sa.TimeoutError
Handle = _sa.Handle
iscoroutine = _sa.iscoroutine
iscoroutinefunction = _sa.iscoroutinefunction
isfuture = _sa.isfuture

FIRST_COMPLETED = "FIRST_COMPLETED"
FIRST_EXCEPTION = "FIRST_EXCEPTION"
ALL_COMPLETED = "ALL_COMPLETED"


class IncompleteReadError(EOFError):
    pass


class TimerHandle(Handle):
    def __init__(self, tid, when):
        self._tid = tid
        self._when = when
        self._cancelled = False

    def cancel(self):
        if not self._cancelled:
            self._cancelled = True
            _sa.del_timer(self._tid)

    def cancelled(self):
        return self._cancelled

    def when(self):
        return self._when


class _SoonHandle(Handle):
    def __init__(self):
        self._cancelled = False

    def cancel(self):
        self._cancelled = True

    def cancelled(self):
        return self._cancelled

    def _run(self, cb, args):
        if not self._cancelled:
            cb(*args)


class AbstractEventLoop:
    def time(self):
        return _sa.now()

    def call_soon(self, cb, *args, context=None):
        h = _SoonHandle()
        _sa.call_soon(h._run, cb, args)
        return h

    call_soon_threadsafe = call_soon

    def call_later(self, delay, cb, *args, context=None):
        if delay <= 0:
            return self.call_soon(cb, *args)
        return TimerHandle(_sa.add_timer(delay, cb, *args), _sa.now() + delay)

    def call_at(self, when, cb, *args, context=None):
        return self.call_later(when - _sa.now(), cb, *args)

    def create_future(self):
        return Future()

    def create_task(self, coro, name=None, context=None):
        return create_task(coro, name)

    def is_running(self):
        return True

    def is_closed(self):
        return False

    def get_debug(self):
        return False

    def call_exception_handler(self, context):
        pass

    def run_in_executor(self, executor, func, *args):
        f = Future()
        try:
            f.set_result(func(*args))
        except Exception as e:
            f.set_exception(e)
        return f


_LOOP = AbstractEventLoop()


def get_event_loop():
    return _LOOP


def get_running_loop():
    return _LOOP


def new_event_loop():
    return _LOOP


def set_event_loop(loop):
    pass


def current_task(loop=None):
    return _sa.current_task()


def all_tasks(loop=None):
    return _sa.all_tasks()


def create_task(coro, name=None, context=None):
    t = _sa.create_task(coro)
    if name is not None:
        t.set_name(name)
    return t


async def _wrap_awaitable(awaitable):
    return await awaitable


def ensure_future(coro_or_future, loop=None):
    if isfuture(coro_or_future):
        return coro_or_future
    if not iscoroutine(coro_or_future):
        if isinstance(coro_or_future, _sa.abc_Awaitable) or _sa.is_unknown(coro_or_future):
            coro_or_future = _wrap_awaitable(coro_or_future)
        else:
            raise TypeError("An asyncio.Future, a coroutine or an awaitable is required")
    return _sa.create_task(coro_or_future)


async def _sleep0():
    await _sa.bare_yield()


def _set_result_unless_cancelled(fut, result):
    if fut.cancelled():
        return
    fut.set_result(result)


async def sleep(delay, result=None):
    if delay <= 0:
        await _sa.bare_yield()
        return result
    future = Future()
    h = _LOOP.call_later(delay, _set_result_unless_cancelled, future, result)
    try:
        return await future
    finally:
        h.cancel()


# ------------------------------------------------------------------ locks
class _ContextManagerMixin:
    async def __aenter__(self):
        await self.acquire()
        return None

    async def __aexit__(self, exc_type, exc, tb):
        self.release()


class Lock(_ContextManagerMixin):
    def __init__(self):
        self._waiters = None
        self._locked = False

    def locked(self):
        return self._locked

    async def acquire(self):
        if (not self._locked and (self._waiters is None or
                all(w.cancelled() for w in self._waiters))):
            self._locked = True
            return True
        if self._waiters is None:
            self._waiters = collections.deque()
        fut = Future()
        self._waiters.append(fut)
        try:
            try:
                await fut
            finally:
                self._waiters.remove(fut)
        except CancelledError:
            if not self._locked:
                self._wake_up_first()
            raise
        self._locked = True
        return True

    def release(self):
        if self._locked:
            self._locked = False
            self._wake_up_first()
        else:
            raise RuntimeError('Lock is not acquired.')

    def _wake_up_first(self):
        if not self._waiters:
            return
        fut = self._waiters[0]
        if not fut.done():
            fut.set_result(True)


class Event:
    def __init__(self):
        self._waiters = collections.deque()
        self._value = False

    def is_set(self):
        return self._value

    def set(self):
        if not self._value:
            self._value = True
            for fut in self._waiters:
                if not fut.done():
                    fut.set_result(True)

    def clear(self):
        self._value = False

    async def wait(self):
        if self._value:
            return True
        fut = Future()
        self._waiters.append(fut)
        try:
            await fut
            return True
        finally:
            self._waiters.remove(fut)


class Condition(_ContextManagerMixin):
    def __init__(self, lock=None):
        if lock is None:
            lock = Lock()
        self._lock = lock
        self.locked = lock.locked
        self.acquire = lock.acquire
        self.release = lock.release
        self._waiters = collections.deque()

    async def wait(self):
        if not self.locked():
            raise RuntimeError('cannot wait on un-acquired lock')
        self.release()
        try:
            fut = Future()
            self._waiters.append(fut)
            try:
                await fut
                return True
            finally:
                self._waiters.remove(fut)
        finally:
            cancelled = False
            while True:
                try:
                    await self.acquire()
                    break
                except CancelledError:
                    cancelled = True
            if cancelled:
                raise CancelledError

    async def wait_for(self, predicate):
        result = predicate()
        while not result:
            await self.wait()
            result = predicate()
        return result

    def notify(self, n=1):
        if not self.locked():
            raise RuntimeError('cannot notify on un-acquired lock')
        idx = 0
        for fut in self._waiters:
            if idx >= n:
                break
            if not fut.done():
                idx += 1
                fut.set_result(False)

    def notify_all(self):
        self.notify(len(self._waiters))


class Semaphore(_ContextManagerMixin):
    def __init__(self, value=1):
        if value < 0:
            raise ValueError("Semaphore initial value must be >= 0")
        self._waiters = None
        self._value = value

    def locked(self):
        return self._value == 0 or (
            any(not w.cancelled() for w in self._waiters or ()))

    async def acquire(self):
        if not self.locked():
            self._value -= 1
            return True
        if self._waiters is None:
            self._waiters = collections.deque()
        fut = Future()
        self._waiters.append(fut)
        try:
            try:
                await fut
            finally:
                self._waiters.remove(fut)
        except CancelledError:
            if not fut.cancelled():
                self._value += 1
                self._wake_up_next()
            raise
        if self._value > 0:
            self._wake_up_next()
        return True

    def release(self):
        self._value += 1
        self._wake_up_next()

    def _wake_up_next(self):
        if not self._waiters:
            return
        for fut in self._waiters:
            if not fut.done():
                self._value -= 1
                fut.set_result(True)
                return


class BoundedSemaphore(Semaphore):
    def __init__(self, value=1):
        self._bound_value = value
        super().__init__(value)

    def release(self):
        if self._value >= self._bound_value:
            raise ValueError('BoundedSemaphore released too many times')
        super().release()


# ------------------------------------------------------------------ queues
class QueueEmpty(Exception):
    pass


class QueueFull(Exception):
    pass


_CAP = [0]


class Queue:
    def __init__(self, maxsize=0):
        # A driver may ask for large queues to be small, so that the analysis sees them full
        self._maxsize = _CAP[0] if _CAP[0] and maxsize >= 8 else maxsize
        self._getters = collections.deque()
        self._putters = collections.deque()
        # unfinished tasks are only counted where the creating module uses task_done
        self._unfinished_tasks = 0 if _sa.tracks_done() else None
        self._finished = Event()
        self._finished.set()
        self._init(maxsize)

    def _init(self, maxsize):
        self._queue = collections.deque()

    def _get(self):
        return self._queue.popleft()

    def _put(self, item):
        self._queue.append(item)

    def _wakeup_next(self, waiters):
        while waiters:
            waiter = waiters.popleft()
            if not waiter.done():
                waiter.set_result(None)
                break

    def qsize(self):
        return len(self._queue)

    @property
    def maxsize(self):
        return self._maxsize

    def empty(self):
        return not self._queue

    def full(self):
        if self._maxsize <= 0:
            return False
        else:
            return self.qsize() >= self._maxsize

    async def put(self, item):
        while self.full():
            putter = Future()
            self._putters.append(putter)
            try:
                await putter
            except:
                putter.cancel()
                try:
                    self._putters.remove(putter)
                except ValueError:
                    pass
                if not self.full() and not putter.cancelled():
                    self._wakeup_next(self._putters)
                raise
        return self.put_nowait(item)

    def put_nowait(self, item):
        if self.full():
            raise QueueFull
        self._put(item)
        if self._unfinished_tasks is not None:
            self._unfinished_tasks += 1
            self._finished.clear()
            if self._unfinished_tasks > len(self._queue) + 3:
                # nobody marks items of this queue as done: stop counting (task_done and join give up)
                self._unfinished_tasks = None
        self._wakeup_next(self._getters)

    async def get(self):
        while self.empty():
            getter = Future()
            self._getters.append(getter)
            try:
                await getter
            except:
                getter.cancel()
                try:
                    self._getters.remove(getter)
                except ValueError:
                    pass
                if not self.empty() and not getter.cancelled():
                    self._wakeup_next(self._getters)
                raise
        return self.get_nowait()

    def get_nowait(self):
        if self.empty():
            raise QueueEmpty
        item = self._get()
        self._wakeup_next(self._putters)
        return item

    def task_done(self):
        if self._unfinished_tasks is None:
            _sa.broken("task_done on a queue whose creator does not use it")
        if self._unfinished_tasks <= 0:
            raise ValueError('task_done() called too many times')
        self._unfinished_tasks -= 1
        if self._unfinished_tasks == 0:
            self._finished.set()

    async def join(self):
        if self._unfinished_tasks is None:
            _sa.broken("join on a queue whose creator does not use task_done")
        if self._unfinished_tasks > 0:
            await self._finished.wait()


class PriorityQueue(Queue):
    def _init(self, maxsize):
        self._queue = []

    def _put(self, item):
        heapq.heappush(self._queue, item)

    def _get(self):
        return heapq.heappop(self._queue)


class LifoQueue(Queue):
    def _init(self, maxsize):
        self._queue = []

    def _put(self, item):
        self._queue.append(item)

    def _get(self):
        return self._queue.pop()


# ------------------------------------------------------------------ waiting
def _release_waiter(waiter, *args):
    if not waiter.done():
        waiter.set_result(None)


class _Timeout:
    def __init__(self, when):
        self._state = "created"
        self._handler = None
        self._task = None
        self._when = when

    def when(self):
        return self._when

    def expired(self):
        return self._state in ("expiring", "expired")

    def reschedule(self, when):
        self._when = when
        if self._handler is not None:
            self._handler.cancel()
        if when is None:
            self._handler = None
        else:
            if when <= _sa.now():
                self._handler = _LOOP.call_soon(self._on_timeout)
            else:
                self._handler = _LOOP.call_at(when, self._on_timeout)

    async def __aenter__(self):
        self._state = "entered"
        self._task = current_task()
        self._cancelling = self._task.cancelling()
        self.reschedule(self._when)
        return self

    async def __aexit__(self, exc_type, exc_val, exc_tb):
        if self._handler is not None:
            self._handler.cancel()
            self._handler = None
        if self._state == "expiring":
            self._state = "expired"
            if self._task.uncancel() <= self._cancelling and exc_type is CancelledError:
                raise TimeoutError from exc_val
        elif self._state == "entered":
            self._state = "exited"
        return None

    def _on_timeout(self):
        self._task.cancel()
        self._state = "expiring"
        self._handler = None


Timeout = _Timeout


def timeout(delay):
    return _Timeout(_sa.now() + delay if delay is not None else None)


def timeout_at(when):
    return _Timeout(when)


async def wait_for(fut, timeout):
    if timeout is not None and timeout <= 0:
        fut = ensure_future(fut)
        if fut.done():
            return fut.result()
        await _cancel_and_wait(fut)
        try:
            return fut.result()
        except CancelledError as exc:
            raise TimeoutError from exc
    async with _Timeout(_sa.now() + timeout if timeout is not None else None):
        return await fut


async def wait(fs, *, timeout=None, return_when=ALL_COMPLETED):
    if isfuture(fs) or iscoroutine(fs):
        raise TypeError("expect a list of futures")
    fs = set(fs)
    if not fs:
        raise ValueError('Set of Tasks/Futures is empty.')
    if any(iscoroutine(f) for f in fs):
        raise TypeError("Passing coroutines is forbidden, use tasks explicitly.")
    return await _wait(fs, timeout, return_when)


class _WaitState:
    pass


async def _wait(fs, timeout, return_when):
    waiter = Future()
    timeout_handle = None
    if timeout is not None:
        timeout_handle = _LOOP.call_later(timeout, _release_waiter, waiter)
    counter = 0
    for f in fs:
        if not f.done():
            counter += 1
    done_now = len(fs) - counter
    # wait() awaits unconditionally unless everything is settled: CPython always suspends once
    state = _WaitState()
    state.counter = len(fs)

    def _on_completion(f):
        state.counter -= 1
        if (state.counter <= 0 or return_when == FIRST_COMPLETED or
                return_when == FIRST_EXCEPTION and (not f.cancelled() and f.exception() is not None)):
            if timeout_handle is not None:
                timeout_handle.cancel()
            if not waiter.done():
                waiter.set_result(None)

    for f in fs:
        f.add_done_callback(_on_completion)
    try:
        await waiter
    finally:
        if timeout_handle is not None:
            timeout_handle.cancel()
        for f in fs:
            f.remove_done_callback(_on_completion)
    done, pending = set(), set()
    for f in fs:
        if f.done():
            done.add(f)
        else:
            pending.add(f)
    return done, pending


async def _cancel_and_wait(fut):
    waiter = Future()

    def cb(f):
        _release_waiter(waiter)
    fut.add_done_callback(cb)
    try:
        fut.cancel()
        await waiter
    finally:
        fut.remove_done_callback(cb)


def as_completed(fs, timeout=None):
    todo = [ensure_future(f) for f in fs]
    done = Queue()
    for f in todo:
        f.add_done_callback(done.put_nowait)

    async def _one():
        f = await done.get()
        return f.result()
    for _ in todo:
        yield _one()


class _GatheringFuture(Future):
    def __init__(self, children):
        self._children = children
        self._cancel_requested = False

    def cancel(self, msg=None):
        if self.done():
            return False
        ret = False
        for child in self._children:
            if child.cancel():
                ret = True
        if ret:
            self._cancel_requested = True
        return ret


def gather(*coros_or_futures, return_exceptions=False):
    if not coros_or_futures:
        outer = Future()
        outer.set_result([])
        return outer
    children = []
    uniq = []
    for arg in coros_or_futures:
        fut = None
        for a, f in uniq:
            if a is arg:
                fut = f
        if fut is None:
            fut = ensure_future(arg)
            uniq.append((arg, fut))
        children.append(fut)
    outer = _GatheringFuture(children)
    state = _WaitState()
    state.nfinished = 0
    nfuts = len(uniq)

    def _done_callback(fut):
        state.nfinished += 1
        if outer.done():
            if not fut.cancelled():
                fut.exception()
            return
        if not return_exceptions:
            if fut.cancelled():
                outer.set_exception(CancelledError())
                return
            else:
                exc = fut.exception()
                if exc is not None:
                    outer.set_exception(exc)
                    return
        if state.nfinished == nfuts:
            results = []
            for f in children:
                if f.cancelled():
                    res = CancelledError()
                else:
                    res = f.exception()
                    if res is None:
                        res = f.result()
                results.append(res)
            if outer._cancel_requested:
                outer.set_exception(CancelledError())
            else:
                outer.set_result(results)

    for a, f in uniq:
        f.add_done_callback(_done_callback)
    return outer


def shield(arg):
    inner = ensure_future(arg)
    if inner.done():
        return inner
    outer = Future()

    def _inner_done_callback(inner):
        if outer.cancelled():
            if not inner.cancelled():
                inner.exception()
            return
        if inner.cancelled():
            outer.cancel()
        else:
            exc = inner.exception()
            if exc is not None:
                outer.set_exception(exc)
            else:
                outer.set_result(inner.result())

    def _outer_done_callback(outer):
        if not inner.done():
            inner.remove_done_callback(_inner_done_callback)

    inner.add_done_callback(_inner_done_callback)
    outer.add_done_callback(_outer_done_callback)
    return outer


class TaskGroup:
    def __init__(self):
        self._tasks = set()
        self._errors = []
        self._exiting = False
        self._aborting = False
        self._parent = None
        self._parent_cancel_requested = False
        self._fut = None

    async def __aenter__(self):
        self._parent = current_task()
        return self

    async def __aexit__(self, et, exc, tb):
        self._exiting = True
        propagate = None
        if et is not None and et is CancelledError:
            propagate = exc
        if self._parent_cancel_requested:
            if self._parent.uncancel() == 0:
                propagate = None
        if et is not None:
            if not self._aborting:
                self._abort()
        while self._tasks:
            if self._fut is None:
                self._fut = Future()
            try:
                await self._fut
            except CancelledError as ex:
                if not self._aborting:
                    propagate = ex
                    self._abort()
            self._fut = None
        if propagate is not None and not self._errors:
            raise propagate
        if et is not None and et is not CancelledError:
            self._errors.append(exc)
        if self._errors:
            for e in self._errors:
                if not isinstance(e, Exception):
                    raise BaseExceptionGroup("unhandled errors in a TaskGroup", self._errors)
            raise ExceptionGroup("unhandled errors in a TaskGroup", self._errors)

    def create_task(self, coro, name=None, context=None):
        task = _sa.create_task(coro)
        self._tasks.add(task)
        task.add_done_callback(self._on_task_done)
        return task

    def _abort(self):
        self._aborting = True
        for t in self._tasks:
            if not t.done():
                t.cancel()

    def _on_task_done(self, task):
        self._tasks.discard(task)
        if self._fut is not None and not self._tasks:
            if not self._fut.done():
                self._fut.set_result(True)
        if task.cancelled():
            return
        exc = task.exception()
        if exc is None:
            return
        self._errors.append(exc)
        if not self._aborting and not self._parent_cancel_requested:
            self._abort()
            self._parent_cancel_requested = True
            self._parent.cancel()


async def to_thread(func, *args, **kwargs):
    await _sa.bare_yield()
    return func(*args, **kwargs)


def run(main, debug=None):
    raise RuntimeError("asyncio.run() cannot be called from a running event loop")
