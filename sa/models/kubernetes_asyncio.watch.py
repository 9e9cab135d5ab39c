class Watch:
    """Calls the list operation with watch=True and iterates over what the server answers."""

    def __init__(self, return_type=None):
        self.resource_version = None
        self._func = None
        self._resp = None
        self._stop = False

    def stream(self, func, *args, **kw):
        self._func = lambda: func(*args, watch=True, _preload_content=False, **kw)
        return self

    def __aiter__(self):
        return self

    async def __anext__(self):
        if self._resp is None:
            self._resp = await self._func()
        if self._stop:
            raise StopAsyncIteration
        return await self._resp.__anext__()

    def stop(self):
        self._stop = True

    async def close(self):
        if self._resp is not None:
            self._resp.close()
            self._resp = None

    async def __aenter__(self):
        return self

    async def __aexit__(self, *exc):
        await self.close()
