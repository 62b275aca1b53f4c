prop("C12", "Transactions are atomic and snapshot isolated",
     "For every interleaving of optimistic and pessimistic transactions (two-phase, async commit or one-phase, over several regions), of the lock resolution that readers and writers perform on behalf of crashed or slow owners, and of lost, repeated or delayed requests and server restarts: a transaction commits all its writes at one timestamp or none; an acknowledged commit is never lost nor reported at another timestamp, an abort never takes effect later; a snapshot read returns exactly what was committed at or before its timestamp, whenever it is read or read again; no committed write overwrites a newer version than its transaction has seen; a locked read returns the newest value; a commit is visible to every later timestamp; and once owners are gone every lock can be resolved.",
     ["inputs", "history", "schedule", "faults", "crash"], "all interleavings of up to 7 transactions over 1-3 regions with request loss, duplication, delay, reads nested inside writes, and restarts",
     "Isolation is a property of histories: it takes particular interleavings of several clients, duplicates and resolvers, which the unit tests never produce.",
     ["src/engine/txn_engine_helper.cc", "src/server/store_service.cc", "src/engine/concurrency_manager.cc", "src/handler/raft_apply_handler.cc", "src/engine/storage.cc"],
     [("prewrite, commit, rollback, lock resolution", "src/engine/txn_engine_helper.cc"), ("access timestamp and memory locks for async commit", "src/engine/concurrency_manager.cc, src/meta/store_meta_manager.h"), ("request handlers", "src/server/store_service.cc")],
     "randomised client histories through the real service handlers, checked against the committed history in the write column family",
     "Requests execute one at a time (reads may be nested around the apply of a write); consensus is an inline stand-in. The client-side protocol is a model of the published one.")

prop("C13", "Every transaction request does exactly what its protocol says",
     "For every sequence of prewrite (optimistic, pessimistic, async commit, one-phase), pessimistic lock, pessimistic rollback, commit, rollback, check-status, check-secondary-locks, resolve-lock and heart-beat requests with any timestamps, keys and options: each request answers with exactly the locks, conflicts, timestamps, values and actions its protocol defines, changes exactly the locks, commit and rollback records and data it reports, changes nothing when it is refused, and repeating it is harmless: a prewritten or committed key stays so, a rolled back transaction can never be prewritten or committed, an expired lock is rolled back only past its time to live, and time to live and minimum commit timestamp never go down.",
     ["inputs", "history"], "all sequences of up to 40 requests by up to 8 transactions over 1-6 keys of a region",
     "Each request branches on the lock, the records and the request options; only the rare combinations (repeated, late, mixed optimistic/pessimistic, colliding timestamps) are at risk and unit tests fix a handful.",
     ["src/engine/txn_engine_helper.cc", "src/server/store_service.cc", "src/handler/raft_apply_handler.cc"],
     [("request semantics", "src/engine/txn_engine_helper.cc"), ("validation and dispatch", "src/server/store_service.cc"), ("applying lock, write and data changes", "src/handler/raft_apply_handler.cc")],
     "model-based stateful testing: every request also runs on an executable model, answers and the full content of the lock, write and data column families are compared after each one",
     "One region, one request at a time; commit timestamps never collide with another transaction's record of the same key (timestamps are unique).")
prop("C15", "Transactional reads and scans see exactly the committed state of their timestamp",
     "For every state of locks, records and data: point reads, batch reads, paged scans (any range bounds, page limit, key-only) and lock scans return, in key order and without gaps or repeats across pages, for each key the value of its newest commit at or before the read timestamp (the newest of all under read committed), skipping rollback records, and stop at exactly the first lock that could still commit below the timestamp, never at locks declared resolved, pushed past it, or outside the range.",
     ["inputs", "history"], "all states reachable by up to 40 transaction requests over 1-6 keys, read at any timestamp with any range and page size",
     "The scan merges two iterators with skipping rules for locks, versions, rollbacks and deletes; errors need special adjacencies of those.",
     ["src/engine/txn_engine_helper.cc", "src/server/store_service.cc", "src/common/stream.cc"],
     [("iterator merging locks and versions", "src/engine/txn_engine_helper.cc (TxnIterator)"), ("point reads", "src/engine/txn_engine_helper.cc (BatchGet)"), ("paging", "src/common/stream.cc")],
     "model-based testing: reads over states built by generated requests compared with the model's answer",
     "A read with an inclusive end or exclusive start covers whole key prefixes (as the raw scans do).")
prop("C16", "Garbage collection never changes what a read at or above the safe point sees",
     "For every set of versions of transactional or raw keys, every growing safe point, batch size, stop flag, tenant, concurrent commit and refused or never written batch: at every batch boundary every read at or above the safe point returns exactly what it returned before the collection; keys of other regions, locks and values of open transactions stay; while collection is stopped or no safe point is known nothing is removed and nothing crashes; a complete collection leaves no delete or rollback record and at most the newest live version of a key at or below the safe point, and no value without its version.",
     ["inputs", "history", "crash"], "up to 24 versions over a few keys in two regions, up to three collections, batches of 1 to 1000 keys, any batch refused",
     "Losing a version shows only to a reader between the safe point and a newer version, or after a crash between two batches; unit tests collect once and count keys.",
     ["src/engine/txn_engine_helper.cc", "src/engine/gc_safe_point.cc", "src/engine/gc_safe_point.h", "src/engine/rocks_raw_engine.cc"],
     [("garbage collection", "src/engine/txn_engine_helper.cc (DoGc*)"), ("safe points of tenants", "src/engine/gc_safe_point.cc")],
     "model-based testing: generated version histories collected through the real request and periodic handlers with injected write failures; visibility compared with the model at every batch boundary",
     "Vector regions share the collection code of raw keys and are not driven separately.")
