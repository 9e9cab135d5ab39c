From fa32fda56ea20913b781743f9241decf17fe53eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 01/34] fix: queue get passes on the wakeup of a cancelled
 waiter

---
 aiok8s/workqueue/queue.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aiok8s/workqueue/queue.py b/aiok8s/workqueue/queue.py
index 6bfa29d..0742842 100644
--- a/aiok8s/workqueue/queue.py
+++ b/aiok8s/workqueue/queue.py
@@ -53,7 +53,12 @@ class Type:
     async def get(self):
         async with self._cond:
             while not self._queue and not self._shutting_down:
-                await self._cond.wait()
+                try:
+                    await self._cond.wait()
+                except asyncio.CancelledError:
+                    # Pass on a wakeup this waiter may have consumed.
+                    self._cond.notify()
+                    raise
             if not self._queue:
                 return None, True
             item = self._queue.popleft()
-- 
2.43.0


From 4511b53900ba8ac89aa65e57146ecc087d2d86d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:16 +0000
Subject: [PATCH 02/34] fix: delaying queue shut_down shuts the underlying
 queue down

---
 aiok8s/workqueue/delaying_queue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/workqueue/delaying_queue.py b/aiok8s/workqueue/delaying_queue.py
index a9768d5..fb266b2 100644
--- a/aiok8s/workqueue/delaying_queue.py
+++ b/aiok8s/workqueue/delaying_queue.py
@@ -59,7 +59,7 @@ class _DelayingType(queue.Type):
     async def shut_down(self):
         if not self._stop_event.is_set():
             self._stop_event.set()
-            await self.shut_down()
+            await super().shut_down()
             self._heartbeat.stop()
 
     async def _waiting_loop(self):
-- 
2.43.0


From bd8482b12ea56e7209ba4656467871d013688d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:16 +0000
Subject: [PATCH 03/34] fix: exponential limiter stays capped after very many
 failures

---
 aiok8s/workqueue/default_rate_limiters.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aiok8s/workqueue/default_rate_limiters.py b/aiok8s/workqueue/default_rate_limiters.py
index e0c7504..33c0ee4 100644
--- a/aiok8s/workqueue/default_rate_limiters.py
+++ b/aiok8s/workqueue/default_rate_limiters.py
@@ -67,7 +67,10 @@ class ItemExponentialFailureRateLimiter:
         exp = self._failures[item]
         self._failures[item] += 1
 
-        backoff = self._base_delay * 2 ** exp
+        try:
+            backoff = self._base_delay * 2 ** exp
+        except OverflowError:
+            return self._max_delay
         calculated = min(backoff, self._max_delay)
         return calculated
 
-- 
2.43.0


From f600bcd16c129eadad2bf5e25b840a23785e7a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:15 +0000
Subject: [PATCH 04/34] fix: add_indexers rejects only conflicting index names

---
 aiok8s/cache/thread_safe_store.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/cache/thread_safe_store.py b/aiok8s/cache/thread_safe_store.py
index 49b5d33..ff7e774 100644
--- a/aiok8s/cache/thread_safe_store.py
+++ b/aiok8s/cache/thread_safe_store.py
@@ -113,7 +113,7 @@ class _ThreadSafeMap:
                 raise Exception("cannot add indexers to running index")
             old_keys = self._indexers.keys()
             new_keys = new_indexers.keys()
-            if old_keys | new_keys:
+            if old_keys & new_keys:
                 raise Exception(f"indexer conflict: {old_keys & new_keys}")
             self._indexers.update(new_indexers)
 
-- 
2.43.0


From dc4baee77be0ca812afe0eee86d1ee8b10f9aa03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:15 +0000
Subject: [PATCH 05/34] fix: an index function may return a value twice

---
 aiok8s/cache/thread_safe_store.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/cache/thread_safe_store.py b/aiok8s/cache/thread_safe_store.py
index ff7e774..38fb932 100644
--- a/aiok8s/cache/thread_safe_store.py
+++ b/aiok8s/cache/thread_safe_store.py
@@ -139,6 +139,6 @@ class _ThreadSafeMap:
             for index_value in index_values:
                 set_ = index.get(index_value)
                 if set_:
-                    set_.remove(key)
+                    set_.discard(key)
                     if not set_:
                         del index[index_value]
-- 
2.43.0


From 86b3a82f36cb143b04ca2658792729e85880d5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:15 +0000
Subject: [PATCH 06/34] fix: deleting an absent object from the FIFO is
 harmless

---
 aiok8s/cache/fifo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/cache/fifo.py b/aiok8s/cache/fifo.py
index 7e6914d..4bce805 100644
--- a/aiok8s/cache/fifo.py
+++ b/aiok8s/cache/fifo.py
@@ -63,7 +63,7 @@ class FIFO:
             raise store.StoreKeyError(obj) from e
         async with self._lock:
             self._populated = True
-            del self._items[id_]
+            self._items.pop(id_, None)
 
     def list(self):
         return list(self._items.values())
-- 
2.43.0


From bddb3c3ea548ff8286661f6b56e74f7c37a2579d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:14 +0000
Subject: [PATCH 07/34] fix: a key deleted from the FIFO and added again queues
 up anew

---
 aiok8s/cache/fifo.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/aiok8s/cache/fifo.py b/aiok8s/cache/fifo.py
index 4bce805..52ea6c0 100644
--- a/aiok8s/cache/fifo.py
+++ b/aiok8s/cache/fifo.py
@@ -63,7 +63,13 @@ class FIFO:
             raise store.StoreKeyError(obj) from e
         async with self._lock:
             self._populated = True
-            self._items.pop(id_, None)
+            if id_ not in self._items:
+                return
+            del self._items[id_]
+            index = self._queue.index(id_)
+            del self._queue[index]
+            if index < self._initial_population_count:
+                self._initial_population_count -= 1
 
     def list(self):
         return list(self._items.values())
-- 
2.43.0


From 4c9772366bde0b792fe171f7feb48f5bfb8a4536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:49 +0000
Subject: [PATCH 08/34] fix: a relist brings back an object whose deletion is
 still pending

---
 aiok8s/cache/delta_fifo.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/aiok8s/cache/delta_fifo.py b/aiok8s/cache/delta_fifo.py
index 5534780..9184b4b 100644
--- a/aiok8s/cache/delta_fifo.py
+++ b/aiok8s/cache/delta_fifo.py
@@ -197,14 +197,8 @@ class DeltaFIFO:
         self._items[id_] = deltas
         self._cond.notify_all()
 
-    def _will_object_be_deleted_locked(self, id_):
-        deltas = self._items.get(id_)
-        return deltas and deltas[-1].type is DeltaType.DELETED
-
     def _queue_action_locked(self, action_type, obj):
         id_ = self.key_of(obj)
-        if action_type is DeltaType.SYNC and self._will_object_be_deleted_locked(id_):
-            return
         new_deltas = Deltas([*self._items.get(id_, []), Delta(action_type, obj)])
         new_deltas = _dedup_deltas(new_deltas)
         if new_deltas:
-- 
2.43.0


From a9690c388bbcca30cb84d62522ad078456659173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:49 +0000
Subject: [PATCH 09/34] fix: a relist deletes objects that are only pending,
 never with a nested tombstone

---
 aiok8s/cache/delta_fifo.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/aiok8s/cache/delta_fifo.py b/aiok8s/cache/delta_fifo.py
index 9184b4b..d18c237 100644
--- a/aiok8s/cache/delta_fifo.py
+++ b/aiok8s/cache/delta_fifo.py
@@ -82,27 +82,28 @@ class DeltaFIFO:
                 key = self.key_of(item)
                 keys.add(key)
                 self._queue_action_locked(DeltaType.SYNC, item)
+            queued_deletions = 0
+            for k, old_item in self._items.items():
+                if k in keys:
+                    continue
+                deleted_obj = None
+                n = old_item.newest()
+                if n:
+                    deleted_obj = n.object
+                    if isinstance(deleted_obj, DeletedFinalStateUnknown):
+                        deleted_obj = deleted_obj.obj
+                queued_deletions += 1
+                self._queue_action_locked(
+                    DeltaType.DELETED, DeletedFinalStateUnknown(k, deleted_obj)
+                )
             if not self._known_objects:
-                queued_deletions = 0
-                for k, old_item in self._items.items():
-                    if k in keys:
-                        continue
-                    deleted_obj = None
-                    n = old_item.newest()
-                    if n:
-                        deleted_obj = n.object
-                    queued_deletions += 1
-                    self._queue_action_locked(
-                        DeltaType.DELETED, DeletedFinalStateUnknown(k, deleted_obj)
-                    )
                 if not self._populated:
                     self._populated = True
                     self._initial_population_count = len(list_) + queued_deletions
                 return
             known_keys = self._known_objects.list_keys()
-            queued_deletions = 0
             for k in known_keys:
-                if k in keys:
+                if k in keys or k in self._items:
                     continue
                 try:
                     deleted_obj = self._known_objects.get_by_key(k)
-- 
2.43.0


From 3d46fb5cf7b0d8c469b65d1a89cd3155303c6f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:49 +0000
Subject: [PATCH 10/34] fix: duplicates in the first list do not keep the
 DeltaFIFO unsynced

---
 aiok8s/cache/delta_fifo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiok8s/cache/delta_fifo.py b/aiok8s/cache/delta_fifo.py
index d18c237..2699bed 100644
--- a/aiok8s/cache/delta_fifo.py
+++ b/aiok8s/cache/delta_fifo.py
@@ -99,7 +99,7 @@ class DeltaFIFO:
             if not self._known_objects:
                 if not self._populated:
                     self._populated = True
-                    self._initial_population_count = len(list_) + queued_deletions
+                    self._initial_population_count = len(keys) + queued_deletions
                 return
             known_keys = self._known_objects.list_keys()
             for k in known_keys:
@@ -128,7 +128,7 @@ class DeltaFIFO:
                 )
             if not self._populated:
                 self._populated = True
-                self._initial_population_count = len(list_) + queued_deletions
+                self._initial_population_count = len(keys) + queued_deletions
 
     async def resync(self):
         async with self._cond:
-- 
2.43.0


From 7c2d5bcebac75845da15aa51c5722852d03e366e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:49 +0000
Subject: [PATCH 11/34] fix: the DeltaFIFO is synced only after the first list
 was processed

---
 aiok8s/cache/delta_fifo.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/aiok8s/cache/delta_fifo.py b/aiok8s/cache/delta_fifo.py
index 2699bed..57680c7 100644
--- a/aiok8s/cache/delta_fifo.py
+++ b/aiok8s/cache/delta_fifo.py
@@ -146,9 +146,8 @@ class DeltaFIFO:
                         raise fifo.FIFOClosedError
                     await self._cond.wait()
                 id_ = self._queue.pop(0)
-                if self._initial_population_count:
-                    self._initial_population_count -= 1
                 if id_ not in self._items:
+                    self._count_down_locked()
                     continue
                 item = self._items.pop(id_)
                 try:
@@ -161,6 +160,8 @@ class DeltaFIFO:
                     raise
                 except Exception as e:
                     raise fifo.ProcessError(item) from e
+                finally:
+                    self._count_down_locked()
                 return item
 
     async def add_if_not_present(self, obj):
@@ -198,6 +199,10 @@ class DeltaFIFO:
         self._items[id_] = deltas
         self._cond.notify_all()
 
+    def _count_down_locked(self):
+        if self._initial_population_count:
+            self._initial_population_count -= 1
+
     def _queue_action_locked(self, action_type, obj):
         id_ = self.key_of(obj)
         new_deltas = Deltas([*self._items.get(id_, []), Delta(action_type, obj)])
-- 
2.43.0


From 3b7e89212ff3ac3e9b3d9df62dce875884859c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:49 +0000
Subject: [PATCH 12/34] fix: the DeltaFIFO reports objects without a key as
 StoreKeyError and stays unchanged

---
 aiok8s/cache/delta_fifo.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/aiok8s/cache/delta_fifo.py b/aiok8s/cache/delta_fifo.py
index 57680c7..2f02484 100644
--- a/aiok8s/cache/delta_fifo.py
+++ b/aiok8s/cache/delta_fifo.py
@@ -34,11 +34,13 @@ class DeltaFIFO:
         self._closed = False
 
     async def add(self, obj):
+        self.key_of(obj)
         async with self._cond:
             self._populated = True
             return self._queue_action_locked(DeltaType.ADDED, obj)
 
     async def update(self, obj):
+        self.key_of(obj)
         async with self._cond:
             self._populated = True
             return self._queue_action_locked(DeltaType.UPDATED, obj)
@@ -77,10 +79,8 @@ class DeltaFIFO:
 
     async def replace(self, list_, resource_version):
         async with self._cond:
-            keys = set()
+            keys = {self.key_of(item) for item in list_}
             for item in list_:
-                key = self.key_of(item)
-                keys.add(key)
                 self._queue_action_locked(DeltaType.SYNC, item)
             queued_deletions = 0
             for k, old_item in self._items.items():
@@ -186,7 +186,10 @@ class DeltaFIFO:
             obj = obj.newest().object
         if isinstance(obj, DeletedFinalStateUnknown):
             return obj.key
-        return self._key_func(obj)
+        try:
+            return self._key_func(obj)
+        except Exception as e:
+            raise store.StoreKeyError(obj) from e
 
     def is_closed(self):
         return self._closed
-- 
2.43.0


From e08788ba71653fab9b28f45e6b2c2ad43837c180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:58 +0000
Subject: [PATCH 13/34] fix: group, version and kind of core objects

---
 aiok8s/api/meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/api/meta.py b/aiok8s/api/meta.py
index df8f547..59c13ac 100644
--- a/aiok8s/api/meta.py
+++ b/aiok8s/api/meta.py
@@ -161,7 +161,7 @@ class _ObjectAccessor:
     # Motivated by apimachinery/pkg/apis/meta/v1/meta.go GroupVersionKind()
     @property
     def group_version_kind(self):
-        group, version = self.api_version.split("/")
+        group, _, version = self.api_version.rpartition("/")
         return schema.GroupVersionKind(group, version, self.kind)
 
 
-- 
2.43.0


From 05e2263ead7af18c963519301f502f6bc50df1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:58 +0000
Subject: [PATCH 14/34] fix: absent metadata fields of a dictionary are None

---
 aiok8s/api/meta.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/aiok8s/api/meta.py b/aiok8s/api/meta.py
index 59c13ac..1c3a3e2 100644
--- a/aiok8s/api/meta.py
+++ b/aiok8s/api/meta.py
@@ -89,7 +89,7 @@ class _UnstructuredListAccessor:
 
     @property
     def resource_version(self):
-        return self._metadata["resourceVersion"]
+        return self._metadata.get("resourceVersion")
 
     @resource_version.setter
     def resource_version(self, resource_version):
@@ -127,19 +127,19 @@ class _UnstructuredAccessor:
 
     @property
     def namespace(self):
-        return self._metadata["namespace"]
+        return self._metadata.get("namespace")
 
     @property
     def name(self):
-        return self._metadata["name"]
+        return self._metadata.get("name")
 
     @property
     def uid(self):
-        return self._metadata["uid"]
+        return self._metadata.get("uid")
 
     @property
     def resource_version(self):
-        return self._metadata["resourceVersion"]
+        return self._metadata.get("resourceVersion")
 
     @resource_version.setter
     def resource_version(self, resource_version):
-- 
2.43.0


From dd9c6c9e8b0b6859640c738c7f16f20e79dbbc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:58 +0000
Subject: [PATCH 15/34] fix: an object or list whose metadata is None is
 rejected

---
 aiok8s/api/meta.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/aiok8s/api/meta.py b/aiok8s/api/meta.py
index 1c3a3e2..28b8d2a 100644
--- a/aiok8s/api/meta.py
+++ b/aiok8s/api/meta.py
@@ -28,19 +28,27 @@ from aiok8s.runtime import schema
 def list_accessor(obj):
     try:
         if isinstance(obj, dict):
-            return _UnstructuredListAccessor(obj)
-        return _ListAccessor(obj)
+            list_meta = _UnstructuredListAccessor(obj)
+        else:
+            list_meta = _ListAccessor(obj)
     except (AttributeError, KeyError):
         raise _NotListError
+    if list_meta._metadata is None:
+        raise _NotListError
+    return list_meta
 
 
 def accessor(obj):
     try:
         if isinstance(obj, dict):
-            return _UnstructuredAccessor(obj)
-        return _Accessor(obj)
+            metadata = _UnstructuredAccessor(obj)
+        else:
+            metadata = _Accessor(obj)
     except (AttributeError, KeyError):
         raise _NotObjectError
+    if metadata._metadata is None:
+        raise _NotObjectError
+    return metadata
 
 
 def type_accessor(obj):
-- 
2.43.0


From b6c948961a39da222776b947b89acaa79ab58797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:58 +0000
Subject: [PATCH 16/34] fix: a backoff without steps does not try for ever

---
 aiok8s/util/wait.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/util/wait.py b/aiok8s/util/wait.py
index ae86246..5c0b330 100644
--- a/aiok8s/util/wait.py
+++ b/aiok8s/util/wait.py
@@ -104,7 +104,7 @@ class Backoff:
 
 async def exponential_backoff(backoff, condition):
     backoff = Backoff(**backoff.__dict__)
-    while backoff.steps:
+    while backoff.steps > 0:
         if await condition():
             return
         if backoff.steps == 1:
-- 
2.43.0


From b944be57eacb51880773241918bb1bf929a7d99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:21 +0000
Subject: [PATCH 17/34] fix: an exception inside the watch stream ends the
 watch

---
 aiok8s/cache/reflector.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/aiok8s/cache/reflector.py b/aiok8s/cache/reflector.py
index 3d4c339..47345c5 100644
--- a/aiok8s/cache/reflector.py
+++ b/aiok8s/cache/reflector.py
@@ -146,10 +146,12 @@ class Reflector:
         event_queue = asyncio.Queue()
 
         async def get_events():
-            async with w:
-                async for event in w:
-                    await event_queue.put(event)
-            await event_queue.put(None)
+            try:
+                async with w:
+                    async for event in w:
+                        await event_queue.put(event)
+            finally:
+                event_queue.put_nowait(None)
 
         get_events_task = asyncio.ensure_future(get_events())
         error_task = asyncio.ensure_future(error_queue.get())
@@ -163,6 +165,7 @@ class Reflector:
                     raise await error_task
                 event = await event_task
                 if event is None:
+                    await get_events_task
                     break
                 if event["type"] == watch.EventType.ERROR:
                     raise Exception
-- 
2.43.0


From 4d56ed372d32e28b9f1c27f23d124a4d96aa82b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:14 +0000
Subject: [PATCH 18/34] fix: a cancelled iteration step of a broadcaster
 watcher loses no event

---
 aiok8s/watch/mux.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/aiok8s/watch/mux.py b/aiok8s/watch/mux.py
index 981557b..45d9471 100644
--- a/aiok8s/watch/mux.py
+++ b/aiok8s/watch/mux.py
@@ -154,6 +154,7 @@ class _BroadcasterWatcher:
         self._result = result
         self._stopped = asyncio.Event()
         self._task = asyncio.ensure_future(self._stopped.wait())
+        self._event = None
         self._id = id_
         self._m = m
 
@@ -161,16 +162,24 @@ class _BroadcasterWatcher:
         return self
 
     async def __anext__(self):
-        event = asyncio.ensure_future(self._result.get())
         while True:
+            # Kept when this call is cancelled, so that no event is lost
+            if self._event is None:
+                self._event = asyncio.ensure_future(self._result.get())
+            event = self._event
             done, _ = await asyncio.wait(
                 [event, self._task], return_when=asyncio.FIRST_COMPLETED
             )
             if event in done:
+                if event is not self._event:
+                    continue
+                self._event = None
                 if not self._result.maxsize:
                     self._result.task_done()
                 return await event
             if self._stopped.is_set():
+                event.cancel()
+                self._event = None
                 raise StopAsyncIteration
 
     async def __aenter__(self):
-- 
2.43.0


From a4a66832481e2655ec1752be2ecdaa788b58e950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:28 +0000
Subject: [PATCH 19/34] fix: every handler learns of changes found by a relist

---
 aiok8s/cache/shared_informer.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/aiok8s/cache/shared_informer.py b/aiok8s/cache/shared_informer.py
index 1458ce4..cbbe918 100644
--- a/aiok8s/cache/shared_informer.py
+++ b/aiok8s/cache/shared_informer.py
@@ -17,6 +17,7 @@ import collections
 import logging
 from typing import Any, NamedTuple
 
+from aiok8s.api import meta
 from aiok8s.cache import controller, delta_fifo, index, store
 from aiok8s.util import clock, retry, wait
 
@@ -181,9 +182,13 @@ class _SharedIndexInformer:
                     delta_fifo.DeltaType.ADDED,
                     delta_fifo.DeltaType.UPDATED,
                 ):
-                    is_sync = d.type == delta_fifo.DeltaType.SYNC
                     old = self._indexer.get(d.object)
                     if old is not None:
+                        # A relist also gives SYNC, for changed objects too
+                        is_sync = (
+                            d.type == delta_fifo.DeltaType.SYNC
+                            and _is_unchanged(old, d.object)
+                        )
                         await self._indexer.update(d.object)
                         await self._processor._distribute(
                             _UpdateNotification(old_obj=old, new_obj=d.object), is_sync
@@ -191,7 +196,7 @@ class _SharedIndexInformer:
                     else:
                         await self._indexer.add(d.object)
                         await self._processor._distribute(
-                            _AddNotification(new_obj=d.object), is_sync
+                            _AddNotification(new_obj=d.object), False
                         )
                 elif d.type == delta_fifo.DeltaType.DELETED:
                     await self._indexer.delete(d.object)
@@ -215,6 +220,16 @@ class _DeleteNotification(NamedTuple):
     old_obj: Any
 
 
+def _is_unchanged(old, new):
+    if old is new:
+        return True
+    resource_version = meta.accessor(new).resource_version
+    return (
+        resource_version is not None
+        and resource_version == meta.accessor(old).resource_version
+    )
+
+
 def _determine_resync_period(desired, check):
     if not desired:
         return 0
-- 
2.43.0


From a257d8fe06e4fff3e892b473e81b0b0cc6707a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:28 +0000
Subject: [PATCH 20/34] fix: a slow handler does not block the informer

---
 aiok8s/cache/shared_informer.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/aiok8s/cache/shared_informer.py b/aiok8s/cache/shared_informer.py
index cbbe918..861e3e2 100644
--- a/aiok8s/cache/shared_informer.py
+++ b/aiok8s/cache/shared_informer.py
@@ -363,7 +363,6 @@ class _ProcessListener:
                 else:
                     get_task.cancel()
                 if put_task in done:
-                    await next_queue.join()
                     if self._pending_notifications:
                         notification = self._pending_notifications.popleft()
                     else:
-- 
2.43.0


From 2077e62006178a5ee1bca074982d945d1ebf052c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:34 +0000
Subject: [PATCH 21/34] fix: a handler gets a resync only when one is due for
 it

---
 aiok8s/cache/shared_informer.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/aiok8s/cache/shared_informer.py b/aiok8s/cache/shared_informer.py
index 861e3e2..32a5701 100644
--- a/aiok8s/cache/shared_informer.py
+++ b/aiok8s/cache/shared_informer.py
@@ -269,7 +269,6 @@ class _SharedProcessor:
 
     def _add_listener_locked(self, listener):
         self._listeners.append(listener)
-        self._syncing_listeners.append(listener)
 
     async def _distribute(self, obj, sync):
         async with self._listeners_lock:
-- 
2.43.0


From 6fb62d77aeceaac204a34db229befd4b895cebd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:44 +0000
Subject: [PATCH 22/34] fix: stopping an informer does not wait for a failed
 handler's pause

---
 aiok8s/cache/shared_informer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/cache/shared_informer.py b/aiok8s/cache/shared_informer.py
index 32a5701..efb3a25 100644
--- a/aiok8s/cache/shared_informer.py
+++ b/aiok8s/cache/shared_informer.py
@@ -408,7 +408,7 @@ class _ProcessListener:
             except asyncio.CancelledError:
                 raise
             except Exception:
-                await asyncio.sleep(60)
+                await asyncio.wait([stop_next_task], timeout=60)
             else:
                 break
 
-- 
2.43.0


From a59bd604e004471b12133365225cb40c6bdb6403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:59 +0000
Subject: [PATCH 23/34] fix: informers of the cache resync within ten percent
 of the period

---
 aiok8s/controller/_informers_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/controller/_informers_map.py b/aiok8s/controller/_informers_map.py
index ce301d5..d672aab 100644
--- a/aiok8s/controller/_informers_map.py
+++ b/aiok8s/controller/_informers_map.py
@@ -101,7 +101,7 @@ def _create_structured_list_watch(gvk, ip):
 
 
 def _resync_period(resync):
-    return lambda: resync * (random.random() / 5 * 0.9)
+    return lambda: resync * (random.random() / 5 + 0.9)
 
 
 def _get_kwargs(ip, options):
-- 
2.43.0


From 9d548b89a5560504aa6c2219d8beec61199feae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:59 +0000
Subject: [PATCH 24/34] fix: a deletion known only through a tombstone is an
 event of its object

---
 aiok8s/controller/source.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aiok8s/controller/source.py b/aiok8s/controller/source.py
index 5ede8da..4bd04bb 100644
--- a/aiok8s/controller/source.py
+++ b/aiok8s/controller/source.py
@@ -16,6 +16,7 @@ import logging
 from typing import Any, Collection, NamedTuple
 
 from aiok8s.api import meta
+from aiok8s.cache import delta_fifo
 from aiok8s.controller import event
 
 logger = logging.getLogger(__name__)
@@ -79,6 +80,8 @@ class EventHandler(NamedTuple):
         await self.event_handler.update(update_event, self.queue)
 
     async def on_delete(self, obj):
+        if isinstance(obj, delta_fifo.DeletedFinalStateUnknown):
+            obj = obj.obj
         try:
             metadata = meta.accessor(obj)
         except Exception:
-- 
2.43.0


From 978894008b7e31e065d487980878cd079c41851f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:59 +0000
Subject: [PATCH 25/34] fix: a cancelled worker stops on every Python version

---
 aiok8s/controller/controller.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aiok8s/controller/controller.py b/aiok8s/controller/controller.py
index e2e48a7..9ff09c4 100644
--- a/aiok8s/controller/controller.py
+++ b/aiok8s/controller/controller.py
@@ -92,6 +92,8 @@ class _Controller:
             return False
         try:
             return await self._reconcile_handler(obj)
+        except asyncio.CancelledError:
+            raise
         except Exception:
             logger.exception("")
         finally:
-- 
2.43.0


From 1976321e1803ba2de596b5074934b24fe68530eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:40 +0000
Subject: [PATCH 26/34] fix: an informer obtained from a running cache is run

---
 aiok8s/controller/_informers_map.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/aiok8s/controller/_informers_map.py b/aiok8s/controller/_informers_map.py
index d672aab..53195f3 100644
--- a/aiok8s/controller/_informers_map.py
+++ b/aiok8s/controller/_informers_map.py
@@ -34,15 +34,29 @@ class _SpecificInformersMap:
         self._informers_by_gvk = {}
         self._mutex = asyncio.Lock()
         self._started = False
+        self._to_run = asyncio.Queue()
 
     async def start(self):
         async with self._mutex:
-            aws = [
-                asyncio.ensure_future(informer.informer.run())
-                for informer in self._informers_by_gvk.values()
-            ]
             self._started = True
-        await asyncio.gather(*aws)
+        get_task = asyncio.ensure_future(self._to_run.get())
+        tasks = {get_task}
+        try:
+            while True:
+                done, tasks = await asyncio.wait(
+                    tasks, return_when=asyncio.FIRST_COMPLETED
+                )
+                if get_task in done:
+                    done.remove(get_task)
+                    informer = await get_task
+                    get_task = asyncio.ensure_future(self._to_run.get())
+                    tasks |= {get_task, asyncio.ensure_future(informer.run())}
+                for task in done:
+                    await task
+        finally:
+            for task in tasks:
+                task.cancel()
+            await asyncio.gather(*tasks, return_exceptions=True)
 
     def has_synced_funcs(self):
         return [
@@ -81,6 +95,7 @@ class _SpecificInformersMap:
             new_informer, _cache_reader.CacheReader(new_informer.get_indexer(), gvk)
         )
         self._informers_by_gvk[gvk] = informer
+        self._to_run.put_nowait(new_informer)
         return informer
 
 
-- 
2.43.0


From ee8832ddd2d038294d5d431930220b07c62900a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:40 +0000
Subject: [PATCH 27/34] fix: a manager that ends leaves neither cache nor
 controllers running

---
 aiok8s/controller/manager.py | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/aiok8s/controller/manager.py b/aiok8s/controller/manager.py
index 0df810b..fd7547f 100644
--- a/aiok8s/controller/manager.py
+++ b/aiok8s/controller/manager.py
@@ -47,18 +47,29 @@ class _ControllerManager:
         return self._cache
 
     async def _start_non_leader_election_runnables(self):
-        async with self._mutex:
-            task = await self._wait_for_cache()
-            aws = [
-                asyncio.ensure_future(controller.start())
-                for controller in self._non_leader_election_runnables
-            ]
-        await asyncio.gather(task, *aws)
+        tasks = []
+        try:
+            async with self._mutex:
+                await self._wait_for_cache(tasks)
+                tasks += [
+                    asyncio.ensure_future(controller.start())
+                    for controller in self._non_leader_election_runnables
+                ]
+            await asyncio.gather(*tasks)
+        finally:
+            for task in tasks:
+                task.cancel()
+            await asyncio.gather(*tasks, return_exceptions=True)
 
-    async def _wait_for_cache(self):
+    async def _wait_for_cache(self, tasks):
         if self._started:
-            return
-        task = asyncio.ensure_future(self._cache.start())
-        await self._cache.wait_for_cache_sync()
+            raise Exception("the manager was already started")
         self._started = True
-        return task
+        task = asyncio.ensure_future(self._cache.start())
+        sync_task = asyncio.ensure_future(self._cache.wait_for_cache_sync())
+        tasks += [task, sync_task]
+        await asyncio.wait([task, sync_task], return_when=asyncio.FIRST_COMPLETED)
+        if not sync_task.done():
+            await task
+        if not await sync_task:
+            raise Exception("failed waiting for caches to sync")
-- 
2.43.0


From 2f766c72c70c47116ae7f8a4e20eeb697fd11e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:03 +0000
Subject: [PATCH 28/34] fix: the config map lock imports the client API by its
 name

---
 aiok8s/leaderelection/resourcelock.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiok8s/leaderelection/resourcelock.py b/aiok8s/leaderelection/resourcelock.py
index 39322b9..6314514 100644
--- a/aiok8s/leaderelection/resourcelock.py
+++ b/aiok8s/leaderelection/resourcelock.py
@@ -15,7 +15,7 @@
 import json
 from typing import NamedTuple
 
-from kubernetes_asyncio.client import apis, models
+from kubernetes_asyncio.client import api, models
 
 LEADER_ELECTION_RECORD_ANNOTATION_KEY = "control-plane.alpha.kubernetes.io/leader"
 
@@ -27,7 +27,7 @@ class ResourceLockConfig(NamedTuple):
 def new(namespace, name, rlc, client=None):
     return ConfigMapLock(
         config_map_meta=models.V1ObjectMeta(namespace=namespace, name=name),
-        client=apis.CoreV1Api(client),
+        client=api.CoreV1Api(client),
         lock_config=rlc,
     )
 
-- 
2.43.0


From d2ea25729a100e4814e99668817a5de2b9dc9383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:03 +0000
Subject: [PATCH 29/34] fix: a missing config map or annotation reads as no
 record

---
 aiok8s/leaderelection/resourcelock.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/aiok8s/leaderelection/resourcelock.py b/aiok8s/leaderelection/resourcelock.py
index 6314514..6cfc2c2 100644
--- a/aiok8s/leaderelection/resourcelock.py
+++ b/aiok8s/leaderelection/resourcelock.py
@@ -15,7 +15,7 @@
 import json
 from typing import NamedTuple
 
-from kubernetes_asyncio.client import api, models
+from kubernetes_asyncio.client import api, exceptions, models
 
 LEADER_ELECTION_RECORD_ANNOTATION_KEY = "control-plane.alpha.kubernetes.io/leader"
 
@@ -40,14 +40,18 @@ class ConfigMapLock:
         self._cm = None
 
     async def get(self):
-        self._cm = await self.client.read_namespaced_config_map(
-            self.config_map_meta.name, self.config_map_meta.namespace
-        )
-        raw_record = (
-            self._cm.metadata.annotations
-            and self._cm.metadata.annotations.get(LEADER_ELECTION_RECORD_ANNOTATION_KEY)
-        )
-        record = raw_record and json.loads(raw_record)
+        try:
+            self._cm = await self.client.read_namespaced_config_map(
+                self.config_map_meta.name, self.config_map_meta.namespace
+            )
+        except exceptions.ApiException as e:
+            if e.status != 404:
+                raise
+            self._cm = None
+            return None, None
+        annotations = self._cm.metadata.annotations or {}
+        raw_record = annotations.get(LEADER_ELECTION_RECORD_ANNOTATION_KEY)
+        record = json.loads(raw_record) if raw_record else None
         return record, raw_record
 
     async def create(self, leader_election_record):
-- 
2.43.0


From 3efb332ef80d42ef2e9276b4f1431837dbbc7263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:03 +0000
Subject: [PATCH 30/34] fix: a record can be stored in a config map that has
 none

---
 aiok8s/leaderelection/resourcelock.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/aiok8s/leaderelection/resourcelock.py b/aiok8s/leaderelection/resourcelock.py
index 6cfc2c2..7fc45fb 100644
--- a/aiok8s/leaderelection/resourcelock.py
+++ b/aiok8s/leaderelection/resourcelock.py
@@ -55,6 +55,10 @@ class ConfigMapLock:
         return record, raw_record
 
     async def create(self, leader_election_record):
+        if self._cm:
+            # The config map exists, only the record does not
+            await self.update(leader_election_record)
+            return
         raw_record = json.dumps(leader_election_record)
         self._cm = await self.client.create_namespaced_config_map(
             self.config_map_meta.namespace,
@@ -71,9 +75,10 @@ class ConfigMapLock:
         if not self._cm:
             raise Exception("configmap not initialized, call get or create first")
         raw_record = json.dumps(leader_election_record)
-        self._cm.metadata.annotations[
-            LEADER_ELECTION_RECORD_ANNOTATION_KEY
-        ] = raw_record
+        self._cm.metadata.annotations = {
+            **(self._cm.metadata.annotations or {}),
+            LEADER_ELECTION_RECORD_ANNOTATION_KEY: raw_record,
+        }
         self._cm = await self.client.replace_namespaced_config_map(
             self.config_map_meta.name, self.config_map_meta.namespace, self._cm
         )
-- 
2.43.0


From 1e1ccbed32815f77651ac4229587b08ba453faba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:03 +0000
Subject: [PATCH 31/34] fix: a leader elector starts without having observed a
 record

---
 aiok8s/leaderelection/leaderelection.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/aiok8s/leaderelection/leaderelection.py b/aiok8s/leaderelection/leaderelection.py
index 6bb9ea7..9351049 100644
--- a/aiok8s/leaderelection/leaderelection.py
+++ b/aiok8s/leaderelection/leaderelection.py
@@ -61,6 +61,10 @@ class LeaderElector:
             raise Exception("lock must not be None")
         self._config = lec
         self._clock = clock.RealClock()
+        self._observed_record = {}
+        self._observed_raw_record = None
+        self._observed_time = 0
+        self._reported_leader = None
 
     async def run(self):
         try:
@@ -74,7 +78,10 @@ class LeaderElector:
             await asyncio.gather(task, return_exceptions=True)
 
     def is_leader(self):
-        return self._observed_record.holder_identity == self._config.lock.identity()
+        return self._observed_holder() == self._config.lock.identity()
+
+    def _observed_holder(self):
+        return self._observed_record.get("holderIdentity")
 
     async def _acquire(self):
         succeeded = False
@@ -207,9 +214,9 @@ class LeaderElector:
         return True
 
     def _maybe_report_transition(self):
-        if self._observed_record.holder_identity == self._reported_leader:
+        if self._observed_holder() == self._reported_leader:
             return
-        self._reported_leader = self._observed_record.holder_identity
+        self._reported_leader = self._observed_holder()
         if self._config.callbacks.on_new_leader:
             asyncio.ensure_future(
                 self._config.callbacks.on_new_leader(self._reported_leader)
-- 
2.43.0


From 7030cd1d32d6640009f23de51b7b68bbc65ed545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:03 +0000
Subject: [PATCH 32/34] fix: a new leader election record counts its
 transitions

---
 aiok8s/leaderelection/leaderelection.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aiok8s/leaderelection/leaderelection.py b/aiok8s/leaderelection/leaderelection.py
index 9351049..189a191 100644
--- a/aiok8s/leaderelection/leaderelection.py
+++ b/aiok8s/leaderelection/leaderelection.py
@@ -164,6 +164,7 @@ class LeaderElector:
             return False
         if old_leader_election_record is None:
             try:
+                leader_election_record["leaderTransitions"] = 0
                 await self._config.lock.create(leader_election_record)
             except asyncio.CancelledError:
                 raise
-- 
2.43.0


From 1e12bcbdcb37354a0fd10fc37c8a9937077d4f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:03 +0000
Subject: [PATCH 33/34] fix: an elector cancelled before it leads ends with the
 cancellation

---
 aiok8s/leaderelection/leaderelection.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/aiok8s/leaderelection/leaderelection.py b/aiok8s/leaderelection/leaderelection.py
index 189a191..86a3679 100644
--- a/aiok8s/leaderelection/leaderelection.py
+++ b/aiok8s/leaderelection/leaderelection.py
@@ -67,15 +67,21 @@ class LeaderElector:
         self._reported_leader = None
 
     async def run(self):
+        tasks = []
         try:
             if not await self._acquire():
                 return
-            task = asyncio.ensure_future(self._config.callbacks.on_started_leading())
+            tasks.append(
+                asyncio.ensure_future(self._config.callbacks.on_started_leading())
+            )
             await self._renew()
         finally:
-            task.cancel()
-            await self._config.callbacks.on_stopped_leading()
-            await asyncio.gather(task, return_exceptions=True)
+            for task in tasks:
+                task.cancel()
+            try:
+                await self._config.callbacks.on_stopped_leading()
+            finally:
+                await asyncio.gather(*tasks, return_exceptions=True)
 
     def is_leader(self):
         return self._observed_holder() == self._config.lock.identity()
-- 
2.43.0


From ebc8aaaa79e62f028a165c5614878a5c727d439e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:03 +0000
Subject: [PATCH 34/34] fix: a leader that cannot renew within the deadline
 steps down

---
 aiok8s/leaderelection/leaderelection.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aiok8s/leaderelection/leaderelection.py b/aiok8s/leaderelection/leaderelection.py
index 86a3679..003b44c 100644
--- a/aiok8s/leaderelection/leaderelection.py
+++ b/aiok8s/leaderelection/leaderelection.py
@@ -115,8 +115,11 @@ class LeaderElector:
             while True:
                 description = self._config.lock.describe()
                 try:
-                    await wait.poll_immediate_infinite(
-                        self._config.retry_period, self._try_acquire_or_renew
+                    await asyncio.wait_for(
+                        wait.poll_immediate_infinite(
+                            self._config.retry_period, self._try_acquire_or_renew
+                        ),
+                        self._config.renew_deadline,
                     )
                 except asyncio.CancelledError:
                     raise
-- 
2.43.0

