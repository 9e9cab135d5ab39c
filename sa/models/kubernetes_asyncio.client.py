from kubernetes_asyncio.client import exceptions, models, api
from kubernetes_asyncio.client.exceptions import ApiException
from kubernetes_asyncio.client.models import *
from kubernetes_asyncio.client.api import CoreV1Api, CoordinationV1Api, CustomObjectsApi, AppsV1Api


class Configuration:
    pass


class ApiClient:
    def __init__(self, configuration=None):
        self.configuration = configuration

    async def close(self):
        pass

    async def __aenter__(self):
        return self

    async def __aexit__(self, *exc):
        pass
