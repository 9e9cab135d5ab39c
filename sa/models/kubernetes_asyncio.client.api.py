from kubernetes_asyncio import _hook


class _Api:
    def __init__(self, api_client=None):
        self.api_client = api_client

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)

        async def operation(*args, **kw):
            return await _hook.call(name, args, kw)
        operation.__name__ = name
        return operation


class CoreV1Api(_Api):
    pass


class CoordinationV1Api(_Api):
    pass


class CustomObjectsApi(_Api):
    pass


class AppsV1Api(_Api):
    pass
