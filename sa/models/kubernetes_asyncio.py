"""The Kubernetes client, as far as the library uses it; the driver plays the server (kubernetes_asyncio._hook.server)."""
