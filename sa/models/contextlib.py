class AbstractContextManager:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None


class AbstractAsyncContextManager:
    async def __aenter__(self):
        return self

    async def __aexit__(self, *a):
        return None


class suppress:
    def __init__(self, *exceptions):
        self._exceptions = exceptions

    def __enter__(self):
        pass

    def __exit__(self, exctype, excinst, exctb):
        return exctype is not None and issubclass(exctype, self._exceptions)


class nullcontext:
    def __init__(self, r=None):
        self.r = r

    def __enter__(self):
        return self.r

    def __exit__(self, *a):
        pass

    async def __aenter__(self):
        return self.r

    async def __aexit__(self, *a):
        pass


class closing:
    def __init__(self, thing):
        self.thing = thing

    def __enter__(self):
        return self.thing

    def __exit__(self, *a):
        self.thing.close()


class aclosing:
    def __init__(self, thing):
        self.thing = thing

    async def __aenter__(self):
        return self.thing

    async def __aexit__(self, *a):
        await self.thing.aclose()


class ContextDecorator:
    def _recreate_cm(self):
        return self

    def __call__(self, func):
        def inner(*a, **kw):
            with self._recreate_cm():
                return func(*a, **kw)
        return inner


class AsyncContextDecorator:
    def _recreate_cm(self):
        return self

    def __call__(self, func):
        async def inner(*a, **kw):
            async with self._recreate_cm():
                return await func(*a, **kw)
        return inner


class _GCM(ContextDecorator):
    def __init__(self, func, a, kw):
        self.gen = func(*a, **kw)
        self.func, self.a, self.kw = func, a, kw

    def _recreate_cm(self):
        return _GCM(self.func, self.a, self.kw)

    def __enter__(self):
        return next(self.gen)

    def __exit__(self, typ, value, tb):
        if typ is None:
            try:
                next(self.gen)
            except StopIteration:
                return False
            raise RuntimeError("generator didn't stop")
        try:
            self.gen.throw(value)
        except StopIteration as e:
            return e is not value
        except BaseException as e:
            if e is not value:
                raise
            return False
        raise RuntimeError("generator didn't stop after throw()")


class contextmanager:
    def __init__(self, func):
        self.func = func

    def __call__(self, *a, **kw):
        return _GCM(self.func, a, kw)

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        return _BoundCM(self, obj)


class _BoundCM:
    def __init__(self, cm, obj):
        self.cm, self.obj = cm, obj

    def __call__(self, *a, **kw):
        return self.cm(self.obj, *a, **kw)


class _AGCM(AsyncContextDecorator):
    def __init__(self, func, a, kw):
        self.gen = func(*a, **kw)
        self.func, self.a, self.kw = func, a, kw

    def _recreate_cm(self):
        return _AGCM(self.func, self.a, self.kw)

    async def __aenter__(self):
        return await self.gen.__anext__()

    async def __aexit__(self, typ, value, tb):
        if typ is None:
            try:
                await self.gen.__anext__()
            except StopAsyncIteration:
                return False
            raise RuntimeError("generator didn't stop")
        try:
            await self.gen.athrow(value)
        except StopAsyncIteration as e:
            return e is not value
        except BaseException as e:
            if e is not value:
                raise
            return False
        raise RuntimeError("generator didn't stop after athrow()")


class asynccontextmanager(contextmanager):
    def __call__(self, *a, **kw):
        return _AGCM(self.func, a, kw)


class ExitStack:
    def __init__(self):
        self._cbs = []

    def enter_context(self, cm):
        r = cm.__enter__()
        self._cbs.append(cm.__exit__)
        return r

    def push(self, cm):
        self._cbs.append(cm.__exit__ if hasattr(type(cm), "__exit__") else cm)
        return cm

    def callback(self, f, *a, **kw):
        def cb(*exc):
            f(*a, **kw)
        self._cbs.append(cb)
        return f

    def pop_all(self):
        n = ExitStack()
        n._cbs, self._cbs = self._cbs, []
        return n

    def close(self):
        self.__exit__(None, None, None)

    def __enter__(self):
        return self

    def __exit__(self, typ, val, tb):
        received = val is not None
        pending = False
        while self._cbs:
            cb = self._cbs.pop()
            try:
                if cb(type(val) if val is not None else None, val, None):
                    val = None
                    pending = False
            except BaseException as e:
                val = e
                pending = True
        if pending:
            raise val
        return received and val is None


class AsyncExitStack:
    def __init__(self):
        self._cbs = []

    def enter_context(self, cm):
        r = cm.__enter__()
        self._cbs.append((False, cm.__exit__))
        return r

    async def enter_async_context(self, cm):
        r = await cm.__aenter__()
        self._cbs.append((True, cm.__aexit__))
        return r

    def callback(self, f, *a, **kw):
        def cb(*exc):
            f(*a, **kw)
        self._cbs.append((False, cb))
        return f

    def push_async_callback(self, f, *a, **kw):
        async def cb(*exc):
            await f(*a, **kw)
        self._cbs.append((True, cb))
        return f

    def push(self, cm):
        self._cbs.append((False, cm.__exit__ if hasattr(type(cm), "__exit__") else cm))
        return cm

    def push_async_exit(self, cm):
        self._cbs.append((True, cm.__aexit__ if hasattr(type(cm), "__aexit__") else cm))
        return cm

    def pop_all(self):
        n = AsyncExitStack()
        n._cbs, self._cbs = self._cbs, []
        return n

    async def aclose(self):
        await self.__aexit__(None, None, None)

    async def __aenter__(self):
        return self

    async def __aexit__(self, typ, val, tb):
        received = val is not None
        pending = False
        while self._cbs:
            isa, cb = self._cbs.pop()
            try:
                r = cb(type(val) if val is not None else None, val, None)
                if isa:
                    r = await r
                if r:
                    val = None
                    pending = False
            except BaseException as e:
                val = e
                pending = True
        if pending:
            raise val
        return received and val is None
