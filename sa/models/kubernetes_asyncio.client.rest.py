from kubernetes_asyncio.client.exceptions import *
