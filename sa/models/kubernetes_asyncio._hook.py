server = None


async def call(name, args, kw):
    """One API call: the server answers with await server.call(operation name, positional arguments, options)."""
    return await server.call(name, args, kw)
