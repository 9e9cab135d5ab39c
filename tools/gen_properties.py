"""Writes /verif/properties.jsonl from the table below (single source of truth)."""
import json, os

P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": a, "meaning": b} for a, b in (state or [])],
            "mechanism": [{"name": a, "where": b} for a, b in mech],
            "observe_at": observe or [],
            "hook_needed": None,
        },
    })

WQ = "aiok8s/workqueue/"
CA = "aiok8s/cache/"
CO = "aiok8s/controller/"
UT = "aiok8s/util/"
LE = "aiok8s/leaderelection/"
WA = "aiok8s/watch/"

# ---------------------------------------------------------------- workqueue
prop("Q01", "Work queue: an item is never processed by two workers at once",
  "An item handed out by get is not handed out again, to any worker, until done is called for it. "
  "An item added several times before it is handed out is handed out once, and len counts it once.",
  ["schedules", "histories"], "every interleaving of add, get and done by any number of producers and workers, over any set of items",
  "Tests run a fixed producer/consumer script under one schedule; they never add between get and done from another task while a third worker waits.",
  [WQ+"queue.py"], [("dirty/processing sets guarding the queue", WQ+"queue.py Type.add/get/done")],
  ["add", "get", "done", "len"], [("dirty", "items that need work"), ("processing", "items handed out and not done")])
prop("Q02", "Work queue: no addition is lost and no worker sleeps on available work",
  "Every item added before shutdown is handed out after that addition; an item added while it is being processed is handed out again after its done. "
  "A worker waiting in get is woken whenever an item is available, so no worker stays blocked while an item is waiting and unassigned.",
  ["schedules", "histories"], "every interleaving of add, get and done with several workers blocked in get",
  "Lost wake-ups and lost additions need one specific interleaving of add/done with blocked workers; the tests drain with many workers so that a lost wake-up is masked.",
  [WQ+"queue.py"], [("re-queue in done, notify under the lock", WQ+"queue.py Type.add/done")], ["add", "get", "done"])
prop("Q03", "Work queue: shutdown drains, then releases every worker",
  "After shut_down, additions of every kind (plain, delayed, rate limited) are ignored, items already queued are still handed out, and then every get, current or future, returns the shutdown marker. "
  "shutting_down reports it, calling shut_down again is harmless, and this holds for the plain, the delaying and the rate-limiting queue alike.",
  ["schedules", "histories"], "every placement of shut_down among adds, delayed adds, gets and dones, for the three queue flavours",
  "Only the plain queue's shutdown is tested, once, with idle producers; delaying and rate-limiting queues are never shut down by a test.",
  [WQ+"queue.py", WQ+"delaying_queue.py", WQ+"rate_limiting_queue.py"], [("shutdown flag + notify_all; delaying queue forwards to the base", WQ+"delaying_queue.py _DelayingType.shut_down")],
  ["shut_down", "shutting_down", "get", "add", "add_after", "add_rate_limited"])
prop("Q04", "Work queue: items are handed out in arrival order",
  "Two different items that are both waiting are handed out in the order in which they became ready: the order of their additions, or, for an item re-added while being processed, the moment of its done. "
  "Adding an item that is already waiting does not change its position.",
  ["histories", "inputs"], "every history of add, get and done over any items",
  "Tests never compare the order of two items of the plain queue.",
  [WQ+"queue.py"], [("deque append/popleft", WQ+"queue.py")], ["get"])
prop("Q05", "Delaying queue: an item is added once, never early, never lost",
  "An item given to add_after with a positive delay becomes available no earlier than the delay and as soon as the clock passes it; with a zero or negative delay it is available at once. "
  "If one item has several pending delays it becomes available once, at the earliest of them, and delays of different items never affect each other.",
  ["schedules", "histories", "inputs"], "every sequence of add_after calls, delays and clock advances, including items whose time passes while the queue is busy",
  "Tests use four fixed delay patterns with a fake clock stepping past one deadline at a time.",
  [WQ+"delaying_queue.py"], [("priority queue with lazy removal, waiting loop with timer and heartbeat", WQ+"delaying_queue.py _waiting_loop/_WaitForPriorityQueue")],
  ["add_after", "get", "len"], [("waiting heap", "entries ordered by ready time")])
prop("Q06", "Exponential failure limiter: doubles per item, capped, forgettable, total",
  "The n-th call for an item since it was last forgotten (n starting at 0) returns min(base * 2**n, max), and num_requeues returns how many calls were made. "
  "forget resets that item only, forgetting an unknown item is harmless, and no number of failures makes the limiter raise.",
  ["inputs", "histories"], "every base and max delay, every number of failures, every mix of items",
  "Tests cover 1000 failures (the overflow starts after about 1024) and two items with fixed base delays.",
  [WQ+"default_rate_limiters.py"], [("per-item counter and power of two", WQ+"default_rate_limiters.py ItemExponentialFailureRateLimiter")],
  ["when", "forget", "num_requeues"])
prop("Q07", "Combined limiter and rate-limited adds use the slowest limiter",
  "A combined limiter returns the largest delay and the largest requeue count of its members, consults every member exactly once per call, and forgets in every member. "
  "add_rate_limited(item) schedules the item after exactly the delay its limiter gives for that item, and forget and num_requeues of the queue are those of the limiter.",
  ["inputs", "histories"], "every set of member limiters and every item",
  "The combined limiter has no test at all; the queue is tested with one limiter only.",
  [WQ+"default_rate_limiters.py", WQ+"rate_limiting_queue.py"], [("max over members", WQ+"default_rate_limiters.py _MaxOfRateLimiters"), ("delegation", WQ+"rate_limiting_queue.py")],
  ["when", "forget", "num_requeues", "add_rate_limited"])
prop("Q08", "Token bucket limiter never exceeds its rate or burst",
  "The bucket limiter never lets tokens exceed the burst, refills at the configured rate, and each call takes one token and returns 0 if one is available and otherwise the time until the missing tokens are refilled. "
  "It returns a non-negative delay, also if the clock steps backwards, and rejects a non-positive rate or a burst below one.",
  ["inputs", "histories"], "every rate, burst, token level and clock reading",
  "Tests call the refill arithmetic on six hand-picked points and never call when.",
  [WQ+"default_rate_limiters.py"], [("refill arithmetic", WQ+"default_rate_limiters.py BucketRateLimiter.when/_advance")], ["when"])
prop("Q09", "Default limiter: doubling delay per item, overall rate with a burst",
  "The limiter a rate-limited queue gets by default returns, for the n-th call for an item since it was last forgotten (n starting at 0), at least min(5 ms * 2**n, 1000 s), and exactly that while at most 100 calls were made in a burst; "
  "beyond the burst of 100, calls for all items together are delayed to 10 per second.",
  ["histories"], "an item failing again and again, and a load of any items beyond the burst",
  "The one test of the default limiter makes a handful of calls.",
  [WQ+"default_rate_limiters.py", WQ+"rate_limiting_queue.py"], [("default limiter", WQ+"default_rate_limiters.py default_controller_rate_limiter")], ["when", "num_requeues"])

# ---------------------------------------------------------------- stores
prop("S01", "Store: a keyed map with last-write-wins and typed key errors",
  "After any sequence of add, update, delete and replace, get, get_by_key, list and list_keys show exactly the last object stored per key and nothing else; deleting an absent key is harmless. "
  "An object whose key cannot be computed raises StoreKeyError carrying that object from every operation that takes an object, and leaves the store unchanged; lists returned are the caller's own copies.",
  ["inputs", "histories"], "every sequence of operations over any keys, with key functions that may fail",
  "Tests run one fixed script of operations and never make the key function fail.",
  [CA+"store.py", CA+"thread_safe_store.py"], [("key computation wrapper", CA+"store.py _Cache"), ("map", CA+"thread_safe_store.py")],
  ["add", "update", "delete", "get", "get_by_key", "list", "list_keys", "replace"])
prop("S02", "Indexer: an index lookup returns exactly the matching stored objects",
  "After any sequence of add, update, delete and replace, by_index, index, index_keys and list_index_func_values return exactly the stored objects (or their keys or values) whose index function yields the value asked for, each once. "
  "This holds whatever values an index function returns, including none, several or repeated ones, and updates never leave an old entry behind.",
  ["inputs", "histories"], "every sequence of operations, index functions returning any list of values",
  "Tests index a handful of objects once; no test updates an object so that its index values change and then deletes it.",
  [CA+"thread_safe_store.py"], [("index maintenance on every write", CA+"thread_safe_store.py _update_indices/_delete_from_indices")],
  ["by_index", "index", "index_keys", "list_index_func_values"], [("indices", "index name -> value -> set of keys")])
prop("S03", "Indexers can be added to an empty store, and only there",
  "add_indexers with new names on an empty store succeeds and the new indexes then work; it fails, changing nothing, if a name is already taken or the store has objects. "
  "Looking up an index name that was never defined raises KeyError rather than answering with an empty result, for by_index, index_keys and index.",
  ["inputs", "histories"], "every set of existing and new index names, every store content",
  "No test calls add_indexers.",
  [CA+"thread_safe_store.py"], [("conflict test", CA+"thread_safe_store.py add_indexers")], ["add_indexers", "by_index"])
prop("S04", "FIFO: latest object per key, in order, once each",
  "pop hands out keys in the order they became pending, each with the latest object stored for it, once per pending period; deleted objects are skipped and deleting an absent object is harmless. "
  "add_if_not_present never replaces a pending object, a processing function that asks for a requeue gets the object back in the queue, and any other processing error reaches the caller of pop.",
  ["histories", "inputs", "schedules"], "every sequence of add, update, delete, replace, resync, add_if_not_present and pop",
  "Tests run a few fixed scripts with one key; deletion is never mixed with replace, resync or requeue.",
  [CA+"fifo.py"], [("items map + key queue under one lock", CA+"fifo.py FIFO")], ["pop", "list", "get"])
prop("S05", "FIFO: synced only after the first list was popped; close releases pop",
  "has_synced is false until the queue is first populated, and if it is first populated by replace stays false until every object of that first list was popped or deleted from it; any other first operation makes it true. "
  "After close a pop on an empty queue raises FIFOClosedError, a blocked one included, while pending objects can still be popped.",
  ["histories", "schedules"], "every sequence of operations before and after the first replace, every point of close",
  "Tests check six action lists; none closes the queue while a pop is blocked.",
  [CA+"fifo.py"], [("initial population count", CA+"fifo.py FIFO.pop/has_synced/close")], ["has_synced", "close", "pop"])

# ---------------------------------------------------------------- DeltaFIFO
prop("F01", "DeltaFIFO: every change is delivered once, in order, per object",
  "pop hands out, for one key, every change (add, update, delete, sync) queued for it since its last pop, in the order queued, each with its own object, with only consecutive deletions merged into one (keeping the more informative). "
  "Keys are handed out in the order they became pending, and no key is handed out without changes.",
  ["histories", "inputs"], "every sequence of operations over any keys and objects",
  "Tests check the newest delta of a few scripts; the middle of a delta list and multi-key order are not compared.",
  [CA+"delta_fifo.py"], [("per-key delta list, dedup of deletions", CA+"delta_fifo.py _queue_action_locked/_dedup_deltas")], ["pop"])
prop("F02", "DeltaFIFO: after a relist the consumer converges to the listed objects",
  "After replace(list), a consumer that applies every popped change holds exactly the objects of the list (with later changes applied on top), whatever was pending or known before. "
  "Objects the consumer knows, or that are pending, and that are not in the list are deleted through a tombstone carrying the key and the last known object; a deletion of an object neither known nor pending produces nothing.",
  ["histories", "inputs", "fault_sequences"], "every combination of known objects, pending changes and list content, with and without a known-objects store",
  "Tests use replace with at most one pending change and never replay the popped changes into a store.",
  [CA+"delta_fifo.py"], [("sync and tombstone generation", CA+"delta_fifo.py replace/delete")], ["replace", "delete", "pop"])
prop("F03", "DeltaFIFO: has_synced turns true only after the first list is processed",
  "If the queue is first populated by replace, has_synced stays false until every key of that first list, and every deletion it implied, was popped and its processing function has finished; then it becomes true and stays true. "
  "An empty first list, or a first population by any other operation, makes it true at once; duplicates in the list do not prevent it.",
  ["histories", "inputs", "schedules"], "every first list (duplicates included), every known-object set, every point of observation, including during processing",
  "Tests check has_synced between pops, never while the processing function runs, and never with duplicate keys.",
  [CA+"delta_fifo.py"], [("initial population count", CA+"delta_fifo.py replace/pop/has_synced")], ["has_synced"])
prop("F04", "DeltaFIFO: failed processing is reported, requeue keeps the changes",
  "If the processing function raises, pop raises ProcessError carrying the popped changes and their cause, and the changes are queued again only if a requeue was asked for, never overwriting newer pending changes. "
  "After close, pop raises FIFOClosedError once nothing is pending, also for a pop already waiting; an object whose key cannot be computed is rejected with StoreKeyError by every operation, leaving the queue unchanged.",
  ["histories", "fault_sequences", "schedules"], "every outcome of the processing function, every point of close, every failing key",
  "Tests exercise one requeue and one error on a queue with a single key.",
  [CA+"delta_fifo.py", CA+"fifo.py"], [("error translation in pop", CA+"delta_fifo.py pop/add_if_not_present/close/key_of")], ["pop", "close", "add_if_not_present"])
prop("F05", "DeltaFIFO: resync re-announces every known object that has no pending change",
  "resync queues a sync change with the current known object for every known key that has nothing pending, and leaves keys with pending changes untouched; without a known-objects store it does nothing. "
  "A known-objects lookup that fails for one key does not prevent the others.",
  ["histories", "fault_sequences"], "every set of known objects and pending changes, every failing lookup",
  "Two tests resync one key each.",
  [CA+"delta_fifo.py"], [("sync of keys without pending deltas", CA+"delta_fifo.py resync/_sync_key_locked")], ["resync", "pop"])
prop("F06", "DeltaFIFO: its views show exactly the pending changes, as copies",
  "At every moment list_keys names exactly the keys with pending changes, get and get_by_key return exactly the pending changes of a key in order (nothing for a key without), and list the newest object of each pending key. "
  "What they return is the caller's own: changing it changes nothing in the queue.",
  ["histories"], "every sequence of operations over two keys, with and without known objects",
  "Tests look at the queue after a few fixed sequences.",
  [CA+"delta_fifo.py"], [("views", CA+"delta_fifo.py list/list_keys/get/get_by_key")], ["list", "list_keys", "get", "get_by_key"])

# ---------------------------------------------------------------- reflector
prop("R01", "Reflector: list and watch events reach the store unchanged and in order",
  "A list replaces the store's content with exactly the listed objects and their resource version; each ADDED, MODIFIED and DELETED event calls add, update and delete respectively with that event's object, once, in stream order. "
  "BOOKMARK and unknown event types, objects of another type or kind and objects without metadata touch nothing, an ERROR event ends the watch, and a store operation that fails does not stop later events.",
  ["inputs", "histories", "fault_sequences"], "every list and every event stream, with store operations that may fail at any event",
  "Tests feed one short stream of well-formed events and one of mistyped ones.",
  [CA+"reflector.py"], [("event dispatch", CA+"reflector.py _watch_handler"), ("list", CA+"reflector.py list_and_watch")], ["store.add", "store.update", "store.delete", "store.replace"])
prop("R02", "Reflector: the resource version only follows what was stored",
  "Every list asks for resource version 0; the watch after a list starts at the list's version, and a watch that is re-opened starts at the version of the last event processed (bookmarks included). "
  "last_sync_resource_version is always the version of the last completed list or processed event; skipped events and failed lists never move it.",
  ["histories", "fault_sequences"], "every sequence of lists, watches, events, skips and reconnects",
  "Tests check the version after one stream only.",
  [CA+"reflector.py"], [("options/resource version bookkeeping", CA+"reflector.py list_and_watch/_watch_handler")], ["watch options", "last_sync_resource_version"])
prop("R03", "Reflector: any failure leads to a new list, never to a silent stop",
  "Whatever fails (list, watch call, an error event or an exception inside the stream, a resync of the store, a watch that closes immediately without events), the reflector's run lists again after a pause; a watch that ends normally after events is re-opened without a list. "
  "Every watch asks the server for a time limit between five and ten minutes, a list asks for none. "
  "run returns only by cancellation and never hangs while its source is able to deliver.",
  ["fault_sequences", "histories"], "every failure point, repeated any number of times",
  "Tests inject two list/watch errors; a stream that raises while being read is never tried.",
  [CA+"reflector.py"], [("error handling in run/list_and_watch/_watch_handler", CA+"reflector.py")], ["run", "list_and_watch"])
prop("R04", "Reflector: a finished or cancelled cycle leaves nothing running",
  "When list_and_watch ends, for any reason including cancellation at any await, its resync task, its stream reader and its timer are stopped and the watch stream has been closed. "
  "Cancellation of run always propagates to the caller.",
  ["crash_points", "schedules"], "every await point at which the reflector may be cancelled or fail",
  "Tests cancel at one point and do not look at leftover tasks or open streams.",
  [CA+"reflector.py"], [("finally blocks", CA+"reflector.py")], ["tasks", "watch stream"])
prop("R05", "Reflector: periodic resync obeys its gate and its errors end the watch",
  "With a resync period, each period the store is resynced if and only if the should-resync function (if any) says so, and the next period is always armed; without a period the store is never resynced. "
  "An error raised by the store's resync ends the current watch, so that a new list follows.",
  ["schedules", "fault_sequences", "configurations"], "every sequence of timer firings and gate answers, every failing resync",
  "One test inspects the resync timer; none fails a resync.",
  [CA+"reflector.py"], [("resync task", CA+"reflector.py list_and_watch resync/_resync_queue")], ["store.resync"])

# ---------------------------------------------------------------- informers
prop("I01", "Informer: the store is updated before handlers are told, with the right event",
  "When a handler is told of a change, the informer's store already reflects it: an object not in the store before gives on_add, one already there gives on_update with the previously stored object and the new one, and a deletion gives on_delete. "
  "This holds for the plain and for the shared informer, for every kind of change, including deletions known only through a tombstone.",
  ["histories", "inputs"], "every sequence of changes over any objects",
  "Tests compare multisets of delivered keys at the end of a run, not the store at delivery nor the old object.",
  [CA+"controller.py", CA+"shared_informer.py"], [("process function", CA+"controller.py _new_informer"), ("handle_deltas", CA+"shared_informer.py")], ["on_add", "on_update", "on_delete", "store"])
prop("I02", "Shared informer: every handler sees every change; a resync only who is due",
  "Every registered handler receives every addition, change and deletion of an object, including those discovered by a relist. "
  "A periodic resync of an unchanged object is delivered only to handlers whose resync period is due; the handler of a plain informer with a resync period hears of every stored object at each period.",
  ["histories", "configurations"], "every set of handlers with any resync periods, every sequence of changes, relists and resyncs",
  "One test adds two listeners with different periods; relists that discover changes are never combined with non-resyncing listeners.",
  [CA+"shared_informer.py"], [("distribution lists", CA+"shared_informer.py _SharedProcessor._distribute/handle_deltas")], ["on_add", "on_update", "on_delete"])
prop("I03", "Shared informer: a handler added late misses nothing and gets no duplicate add",
  "A handler added while the informer runs first receives an on_add for every object then in the store and from then on every later change, with no change lost or delivered twice, wherever the registration falls among concurrent changes. "
  "A handler added after the informer stopped receives nothing and the call returns.",
  ["schedules", "histories"], "every point at which add_event_handler interleaves with processing of changes",
  "Tests add handlers before the run, or after it while nothing changes.",
  [CA+"shared_informer.py"], [("block_deltas lock around registration and replay", CA+"shared_informer.py add_event_handler/handle_deltas")], ["add_event_handler"])
prop("I04", "Shared informer: per-handler order, isolation from slow and failing handlers",
  "Each handler receives its notifications one at a time, in the order the changes were applied to the store, none lost or duplicated. "
  "A handler that is slow or that raises delays or loses nothing for the other handlers, never blocks processing of further changes, and after raising continues with its next notification.",
  ["schedules", "fault_sequences"], "every schedule of handler execution, every handler that blocks or raises at any notification",
  "No test has a blocking or raising handler.",
  [CA+"shared_informer.py"], [("pending buffer per listener", CA+"shared_informer.py _ProcessListener._pop/_run/_add")], ["handlers"])
prop("I05", "Informer: stopping ends everything it started",
  "When an informer's run is cancelled, at any await, its reflector, its listener tasks and its processing all end and run terminates with the cancellation instead of hanging; a stopped informer delivers nothing further. "
  "The queue is closed so that no consumer stays blocked.",
  ["crash_points", "schedules"], "every await point at which run may be cancelled, with idle, busy and slow handlers",
  "Tests cancel run at the end of the test and ignore what remains.",
  [CA+"controller.py", CA+"shared_informer.py"], [("cancellation handling", CA+"controller.py _Controller.run"), ("processor stop", CA+"shared_informer.py run")], ["run", "tasks"])
prop("I06", "Shared informer: resync period negotiation",
  "Before start, a handler's requested resync period below the minimum is raised to it, the informer checks at the smallest requested period, and each handler is resynced at its own period or the informer's, whichever is longer; zero means never. "
  "After start the informer's period no longer changes and a smaller request is raised to it.",
  ["inputs", "histories", "configurations"], "every default period, every sequence of registrations before and after start with any periods",
  "One test checks four fixed periods.",
  [CA+"shared_informer.py"], [("period computation", CA+"shared_informer.py add_event_handler/_determine_resync_period")], ["add_event_handler"])
prop("I07", "Informer: synced only after the first list was fully processed",
  "has_synced of an informer is false before it runs and until every object of its first list has been applied to its store, and stopping it early does not make it true; waiting for several caches returns true only when all of them are synced, and false as soon as a check fails. "
  "A failing processing function does not stop the processing loop, and is retried exactly when configured to retry.",
  ["histories", "schedules", "fault_sequences"], "every first list, every point of observation, every processing failure",
  "Tests poll has_synced until true; they cannot see it being true too early.",
  [CA+"controller.py", CA+"shared_informer.py", CA+"delta_fifo.py"], [("has_synced delegation", CA+"controller.py has_synced"), ("process loop", CA+"controller.py _process_loop")], ["has_synced", "wait_for_cache_sync"])
prop("I08", "Shared informer: its indexes answer from its store; version reached",
  "Indexers given at creation or added before the start find exactly the objects in the informer's store at every moment, during the run and after it; adding one whose name is taken, or any once the informer has started, is refused and changes nothing. "
  "last_sync_resource_version is empty before the run and then the version of the last list or event processed; the store of an informer stays the same object.",
  ["histories"], "every first list, every short sequence of events, additions of indexers at every stage",
  "No test uses an index of an informer.",
  [CA+"shared_informer.py", CA+"thread_safe_store.py"], [("add_indexers", CA+"shared_informer.py add_indexers"), ("version", CA+"shared_informer.py last_sync_resource_version")], ["get_indexer", "add_indexers", "last_sync_resource_version"])

# ---------------------------------------------------------------- watch
prop("M01", "Broadcaster: every watcher receives every event after its registration, in order",
  "In waiting mode each watcher that is not stopped receives exactly the events published after its registration, in publication order, preceded by its prefix events if any; a slow watcher delays but never loses: what is buffered for it is bounded by its queue length, beyond that publishers wait. "
  "Events already queued before a watcher was registered are not delivered to it.",
  ["schedules", "histories"], "every interleaving of publishing, watching and reading by any number of watchers, any queue length",
  "One test publishes four events to two watchers.",
  [WA+"mux.py"], [("single distribution loop and registration through it", WA+"mux.py Broadcaster")], ["watch", "watch_with_prefix", "action"])
prop("M02", "Broadcaster: dropping mode never blocks and never disturbs other watchers",
  "In dropping mode publishing never waits for a watcher: a watcher whose queue is full misses exactly those events and receives the others in order, and other watchers are unaffected.",
  ["schedules", "histories"], "every fill state of every watcher's queue",
  "One test fills queues of length one with two events.",
  [WA+"mux.py"], [("put_nowait branch", WA+"mux.py _distribute")], ["action", "watcher iteration"])
prop("M03", "Broadcaster: stopping a watcher or the broadcaster never deadlocks",
  "Stopping a watcher (any number of times, from any task, also while an event is being delivered to it) ends its iteration and unblocks the broadcaster, and other watchers continue; leaving the block of a watcher used as a context manager stops it. "
  "shutdown delivers what was published before it, ends the iteration of every watcher, and returns.",
  ["schedules"], "every interleaving of stop, shutdown, delivery and iteration",
  "One test covers one mutual-stop interleaving.",
  [WA+"mux.py"], [("stopped event raced with delivery", WA+"mux.py _distribute/_BroadcasterWatcher"), ("close", WA+"mux.py _close_all")], ["stop", "shutdown"])
prop("M04", "Fake watcher: delivers each event once and ends when stopped",
  "A fake watcher delivers each event given to it exactly once, in order, with the type of the method used, and the sender resumes only after the event was taken. "
  "stop ends the iteration; reset makes it usable again.",
  ["schedules", "histories"], "every interleaving of senders, reader, stop and reset",
  "One test sends five events and stops.",
  [WA+"watch.py"], [("queue + join", WA+"watch.py FakeWatcher")], ["add", "modify", "delete", "error", "stop", "reset"])

# ---------------------------------------------------------------- controller runtime
prop("C01", "Controller: the reconcile result decides the item's next step",
  "A failed reconcile re-adds the request rate-limited and keeps its failure count; a result with a requeue delay forgets failures and re-adds after that delay; a result asking for requeue re-adds rate-limited; otherwise failures are forgotten and nothing is re-added. "
  "A queue item that is not a request is dropped, forgotten and never reconciled.",
  ["inputs", "fault_sequences"], "every reconcile outcome and every kind of queue item",
  "The controller package has no tests.",
  [CO+"controller.py"], [("outcome dispatch", CO+"controller.py _reconcile_handler")], ["reconcile", "queue.add_after", "queue.add_rate_limited", "queue.forget"])
prop("C02", "Controller: every item taken is marked done once, and workers survive failures",
  "Every item a worker takes from the queue is marked done exactly once, whatever the reconcile or the queue operations do, including being cancelled, and never before its outcome was handled. "
  "A worker keeps taking items after any reconcile error and stops only on queue shutdown or cancellation.",
  ["fault_sequences", "crash_points"], "every outcome, every exception, every cancellation point of the worker",
  "The controller package has no tests.",
  [CO+"controller.py"], [("finally done", CO+"controller.py _process_next_work_item"), ("worker loop", CO+"controller.py start")], ["queue.get", "queue.done"])
prop("C03", "Controller: sources start before the sync, workers only after it",
  "start starts every watched source with its own handler, the controller's queue and its predicates, then waits for the caches, and no reconcile runs before they are synced; if they cannot be synced start fails. "
  "However start ends, the queue is shut down, and exactly the configured number of workers runs.",
  ["schedules", "fault_sequences", "configurations"], "every number of sources and workers, every failure or cancellation during start",
  "The controller package has no tests.",
  [CO+"controller.py"], [("start sequence", CO+"controller.py start")], ["source.start", "wait_for_cache_sync", "reconcile"])
prop("C04", "Controller: every object event becomes the request of that object",
  "Each create, update and delete event of a watched object that all predicates accept enqueues a request with that object's namespace and name, deletions known only through a tombstone included; an update enqueues both the old and the new object's request. "
  "An event rejected by any predicate, or without metadata, enqueues nothing, and predicates of other event kinds are not asked.",
  ["inputs", "configurations"], "every event, object kind and predicate answer",
  "The controller package has no tests.",
  [CO+"source.py", CO+"handler.py"], [("event construction and predicates", CO+"source.py EventHandler"), ("enqueue", CO+"handler.py")], ["queue.add"])
prop("C05", "Cache read: returns the stored object for the same key the informer used",
  "Reading an object by namespace and name returns the object the informer stored under that namespace and name, cluster-scoped objects included, and raises KeyError if there is none. "
  "Reading before the cache is started raises CacheNotStartedError; reading after it waits until the kind's informer is synced.",
  ["inputs", "histories"], "every namespace and name, every cache state",
  "The controller package has no tests.",
  [CO+"_cache_reader.py", CO+"cache.py", CO+"_informers_map.py", CA+"store.py"], [("key agreement", CO+"_cache_reader.py"), ("started gate", CO+"cache.py get")], ["cache.get"])
prop("C06", "Cache: one informer per kind, and it runs once the cache is started",
  "All requests for one kind, concurrent ones included, get the same informer. "
  "Every informer obtained before or after the cache is started is run exactly once while the cache runs, so that waiting for its sync terminates when its source answers.",
  ["schedules", "histories"], "every interleaving of get_informer, get and start",
  "The controller package has no tests.",
  [CO+"_informers_map.py", CO+"_deleg_map.py", CO+"cache.py"], [("informer map", CO+"_informers_map.py get/start")], ["get_informer", "start"])
prop("C07", "Manager: starts the cache first, every controller once, and stops all together",
  "start runs the cache, waits for its sync and only then starts every added controller, each once. "
  "When start ends, by cancellation at any point or because the cache or a controller failed, the error propagates and neither the cache nor any controller keeps running.",
  ["crash_points", "fault_sequences", "schedules"], "every failure and cancellation point of start",
  "The controller package has no tests.",
  [CO+"manager.py"], [("start sequence", CO+"manager.py")], ["start"])
prop("C08", "Cache: informers resync at the configured period within ten percent",
  "The resync period given to each informer lies between 0.9 and 1.1 times the configured period, whatever the random draw.",
  ["inputs"], "every configured period and every random draw in [0,1)",
  "The controller package has no tests; a test would sample the draw.",
  [CO+"_informers_map.py"], [("jitter", CO+"_informers_map.py _resync_period")], ["informer resync period"])
prop("C09", "Cache: list and watch of a kind use the same scope and client call",
  "For every kind and namespace setting, listing and watching call the same API operation with the options given by the reflector; with a namespace both are restricted to it, without one both cover all namespaces.",
  ["inputs", "configurations"], "every namespace setting and options",
  "The controller package has no tests.",
  [CO+"_informers_map.py", CO+"client.py"], [("lister/watcher construction", CO+"client.py"), ("kwargs", CO+"_informers_map.py")], ["API call"])
prop("C10", "Injection: whatever is handed over gets the manager's cache",
  "A reconciler, controller, source, event handler, predicate or runnable handed to a manager or a controller gets the manager's cache if it has inject_cache and, if it has inject_func, a function that does the same for what it is given, by the time the call returns; anything without these hooks is accepted as it is. "
  "A source takes the informer of its kind from the cache it was given and registers one handler there, and refuses to start without a cache. A controller's reconcile asks its reconciler once and passes its answer or error on.",
  ["inputs"], "every combination of hooks on every kind of part, to a nesting of two",
  "The controller package has no tests.",
  [CO+"controller.py", CO+"manager.py", CO+"source.py"], [("set_fields", CO+"manager.py set_fields"), ("watch", CO+"controller.py watch")], ["inject_cache", "inject_func"])
prop("C11", "Kinds: one client and one type of object per kind",
  "A type of objects and its group/version/kind belong to each other and are served by the client defined for them, with or without a type. "
  "Defining a second client for a kind is refused and changes nothing, and a type or kind without a client is refused, by the cache too.",
  ["inputs"], "typed and untyped kinds, unknown types, kinds defined twice",
  "The controller package has no tests.",
  [CO+"client.py", CO+"cache.py"], [("registry", CO+"client.py _Client.__init_subclass__")], ["gvk_for_object", "rest_client_for_gvk", "get_informer"])

prop("C12", "End to end: the last reconcile of every object saw its latest state",
  "For a controller built by the builder and run by a manager: once what the server changed has been delivered and nothing more happens, every object that exists, and every object deleted after it had been watched, has been reconciled, and its last reconcile could read its latest state from the manager's cache (nothing, once it is deleted). "
  "This holds across watches that end, fail or expire, lists that fail, reconcilers that are slow, raise or ask to be called again, and changes in the middle of a reconcile. "
  "No object is reconciled twice at once, only objects that exist or existed are reconciled, two controllers in a manager do not disturb each other, and the manager runs until it is cancelled.",
  ["schedules", "histories", "inputs"], "sequences of server changes, watch and list faults and reconciler answers, in every schedule",
  "The controller package has no tests, and the parts are tested one by one.",
  [CO+"builder.py", CO+"manager.py", CO+"controller.py", CO+"_informers_map.py", CA+"reflector.py", CA+"delta_fifo.py", CA+"shared_informer.py", WQ+"rate_limiting_queue.py"],
  [("reconcile", CO+"controller.py _process_next_work_item"), ("list_and_watch", CA+"reflector.py list_and_watch")], ["reconcile", "manager.client reads"])

# ---------------------------------------------------------------- leader election
prop("L01", "Leader election: a lease is taken only if free, expired or own",
  "A candidate writes itself into the lease only if no record exists, the record has no holder, it already holds it, or the holder's record has not changed for a full lease duration by the candidate's own clock. "
  "If reading or writing the record fails the attempt fails without claiming leadership.",
  ["histories", "fault_sequences", "inputs"], "every record content, every history of observed records, every failing read or write",
  "The leader election package has no tests.",
  [LE+"leaderelection.py"], [("acquire rule", LE+"leaderelection.py _try_acquire_or_renew")], ["lock.create", "lock.update", "is_leader"])
prop("L02", "Leader election: the record written keeps its history",
  "Renewing by the same holder keeps acquireTime and leaderTransitions, taking over from another holder increments leaderTransitions by one, and a newly created record counts from zero. "
  "Every record written to take or keep the lease names the candidate as holder with its lease duration and the current renew time; a released lease names no holder and keeps leaderTransitions.",
  ["histories", "inputs"], "every sequence of create, renew and take-over",
  "The leader election package has no tests.",
  [LE+"leaderelection.py"], [("record construction", LE+"leaderelection.py _try_acquire_or_renew")], ["lock.create", "lock.update"])
prop("L03", "Leader election: a leader that cannot renew steps down",
  "A leader whose renewal attempts keep failing for the renew deadline stops leading: run ends, the leading task is cancelled and on_stopped_leading is called, no later than one retry period plus the renew deadline after its last successful renewal. "
  "A leader that renews in time keeps leading and renews again after each retry period.",
  ["fault_sequences", "schedules"], "every sequence of renew successes and failures",
  "The leader election package has no tests.",
  [LE+"leaderelection.py"], [("renew loop", LE+"leaderelection.py _renew")], ["run", "callbacks"])
prop("L04", "Leader election: callbacks fire once, in order, and on every exit",
  "on_started_leading is started once and only after the lease was acquired; whenever run ends, by losing the lease, by an error or by cancellation at any point, the leading task is cancelled, then on_stopped_leading is called once, and the task is awaited. "
  "on_new_leader is called with the holder's identity exactly when the observed holder changes.",
  ["crash_points", "schedules", "histories"], "every exit path of run and every sequence of observed holders",
  "The leader election package has no tests.",
  [LE+"leaderelection.py"], [("run/finally", LE+"leaderelection.py run"), ("transition report", LE+"leaderelection.py _maybe_report_transition")], ["callbacks"])
prop("L05", "Leader election: unsafe configurations are rejected",
  "A configuration is accepted only if lease duration > renew deadline > jitter factor * retry period > 0 and the lock and the start and stop callbacks are given; anything else is rejected when the elector is created.",
  ["inputs", "configurations"], "every combination of durations, callbacks and lock",
  "The leader election package has no tests.",
  [LE+"leaderelection.py"], [("validation", LE+"leaderelection.py LeaderElector.__init__")], ["LeaderElector"])
prop("L06", "Config map lock: the record written is the record read back",
  "A record created or updated through the lock is the record the next get returns, together with its raw text, in the config map of the configured namespace and name under the leader annotation; other annotations are preserved. "
  "A missing config map or annotation reads as no record, and create and update then work; update before any get or create fails.",
  ["histories", "inputs"], "every sequence of get, create and update, any existing config map",
  "The leader election package has no tests.",
  [LE+"resourcelock.py"], [("codec and API calls", LE+"resourcelock.py ConfigMapLock")], ["API calls"])
prop("L07", "Leader election: is_leader is right; the lease is given back if asked for",
  "is_leader is true exactly while the record last seen or written by the elector names it as the holder: never before the lease was taken, not once another holder was seen, not after the lease was given back. "
  "With release_on_cancel the lease is given back (no holder, transitions kept) whenever the leader stops, by cancellation at any point or by missing its deadline, provided it still holds it; otherwise nothing is written when run ends.",
  ["histories", "crash_points", "fault_sequences"], "every first record, every way run can end, a release that succeeds or fails",
  "Leader election has no tests.",
  [LE+"leaderelection.py"], [("release", LE+"leaderelection.py _release"), ("is_leader", LE+"leaderelection.py is_leader")], ["is_leader", "lock.update"])

# ---------------------------------------------------------------- util
prop("U01", "Wait loops run until stopped and pause for the jittered period",
  "jitter_loop and loop call the function again and again, pausing between calls for period <= pause < period * (1 + factor) (exactly period if the factor is not positive), measured from the end of the call if sliding and from its start otherwise. "
  "The until variants never call the function once the stop event is set, and stop waiting as soon as it is set.",
  ["inputs", "schedules"], "every period, factor, mode and point of stopping",
  "Tests sample one random draw and two periods.",
  [UT+"wait.py", UT+"_time.py"], [("loops", UT+"wait.py"), ("jitter", UT+"wait.py jitter")], ["f"])
prop("U02", "Backoff and polling: exact number of attempts, exact outcomes",
  "exponential_backoff calls the condition at most steps times, returns on the first true result, raises WaitTimeoutError after the last false one, propagates the condition's exception, and does not modify the given backoff; step returns the durations duration, duration*factor, ... before jitter, no grown one exceeding the cap, and reaching the cap ends the steps. "
  "poll and its variants return on the first true condition, raise WaitTimeoutError on timeout, and the immediate variants test before waiting.",
  ["inputs", "histories"], "every number of steps (zero and negative included), factor, cap, jitter and sequence of condition results",
  "Tests use fixed steps and never zero steps.",
  [UT+"wait.py"], [("backoff", UT+"wait.py Backoff/exponential_backoff"), ("poll", UT+"wait.py poll*")], ["condition"])
prop("U03", "Clocks: timers fire once at their time, tickers repeat, stop silences",
  "A fake clock fires a timer exactly once when time reaches its target and never before, a ticker once per step that passes one or more of its ticks, dropping ticks that nobody took; a stopped timer never fires and reset moves a pending one. "
  "The real timer fires once after its duration and the real ticker repeatedly without blocking on an absent reader, until stopped.",
  ["histories", "schedules", "inputs"], "every sequence of timers, tickers, steps, stops and resets",
  "Tests step the fake clock past fixed targets.",
  [UT+"clock.py", UT+"_time.py"], [("waiters", UT+"clock.py FakeClock"), ("tasks", UT+"_time.py")], ["c()"])

# ---------------------------------------------------------------- meta
prop("A01", "Metadata access is the same for typed objects and raw dictionaries",
  "For every object, the accessor of a typed object and of its dictionary form agree on namespace, name, uid and resource version, absent fields being None, and setting the resource version is visible in the object; the same holds for lists and their items. "
  "Something without metadata is rejected, and the store key is namespace/name, or the name alone without a namespace.",
  ["inputs"], "every object, with any subset of metadata fields",
  "Tests build objects with all fields present and mostly typed ones.",
  ["aiok8s/api/meta.py", CA+"store.py", CA+"index.py"], [("accessors", "aiok8s/api/meta.py"), ("key", CA+"store.py meta_namespace_key_func")], ["accessor", "meta_namespace_key_func"])
prop("A02", "Group, version and kind are parsed from every API version",
  "The group/version/kind of an object splits its API version into group and version, with an empty group for the core API, and keeps the kind, for typed objects and dictionaries alike.",
  ["inputs"], "every API version, core ones without a group included",
  "Tests use one grouped API version.",
  ["aiok8s/api/meta.py", "aiok8s/runtime/schema.py"], [("parse", "aiok8s/api/meta.py group_version_kind")], ["type_accessor"])

# ---------------------------------------------------------------- fakes
prop("T01", "Fake controller source: list and watch tell one history",
  "A list returns copies of exactly the objects added or modified and not deleted since, told apart by namespace, name and uid, with the number of changes so far as its version; every change gives its object the version it is recorded under. "
  "A watch from a version gives exactly the changes after it, in order and each once, whether made before or after it was opened, except that changes made with the drop variants do not reach watches already open. A watch from a future version is refused; shutdown ends every watch.",
  ["histories", "schedules"], "every interleaving of changes, lists and watches from any version",
  "Tests of the informers use the source with one watcher and a handful of changes; its own test watches from three versions.",
  [CA+"testing/fake_controller_source.py", WA+"mux.py"], [("history", CA+"testing/fake_controller_source.py change/watch"), ("list", CA+"testing/fake_controller_source.py list")], ["list", "watch"])
prop("T02", "Fake store: every operation calls its own function, once",
  "Each operation of the custom fake store calls the function given for it, and no other, exactly once with the arguments of the operation, and passes on its answer or error; an operation without a function does nothing.",
  ["inputs"], "every operation with any subset of the functions given",
  "The store is only used by a few reflector tests, which give two of its functions.",
  [CA+"fake_custom_store.py"], [("functions", CA+"fake_custom_store.py")], ["all operations"])

# ---------------------------------------------------------------- cross-cutting
prop("X01", "No asynchronous call is forgotten",
  "Every asynchronous operation the library starts is awaited, returned or scheduled; none is created and dropped, which would silently skip its effect.",
  ["programs"], "every call site of an asynchronous function or method in the library",
  "A dropped coroutine only warns at run time on the path that drops it.",
  ["aiok8s"], [("await at call sites", "all packages")], ["call sites"])
prop("X02", "Locks: no self-deadlock, no cyclic acquisition, always released",
  "No task acquires a lock it already holds, no two locks are acquired in opposite orders by different operations, and every lock acquired by the library is released on every exit of the acquiring block, exceptional ones included.",
  ["schedules", "programs"], "every call path through every lock in the library",
  "A deadlock needs one specific interleaving of two operations.",
  ["aiok8s"], [("async with blocks", "all packages")], ["lock acquisitions"])
prop("X03", "Cancellation is never swallowed",
  "No handler in the library catches a task cancellation and carries on: wherever an exception handler encloses an await and would catch cancellation, on any supported Python version (3.6 on, where before 3.8 a cancellation is an Exception), it re-raises it.",
  ["crash_points", "programs"], "every await inside an exception handler's scope",
  "Tests cancel at the top level on one Python version.",
  ["aiok8s"], [("except CancelledError: raise", "all packages")], ["exception handlers"])
prop("X04", "Instances are independent",
  "Two instances of one component (queue, limiter, store, indexer, FIFO, DeltaFIFO, watch, broadcaster, clock, backoff, informer, cache, manager, controller, elector) never influence each other: what is done to one is not seen in another, made before or after.",
  ["histories"], "every component used in all its operations next to a fresh instance",
  "Tests use one instance at a time, so state shared by accident (a class attribute, a default argument) goes unnoticed.",
  ["aiok8s"], [("constructors", "all packages")], ["all observers"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
