async def default(it, d):
    try:
        return await it.__anext__()
    except StopAsyncIteration:
        return d
