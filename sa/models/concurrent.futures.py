import asyncio
CancelledError = asyncio.CancelledError
TimeoutError = asyncio.TimeoutError


class Future:
    pass
