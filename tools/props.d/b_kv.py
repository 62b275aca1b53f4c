prop("C05", "Raw key-value operations behave as one map with versions",
     "For every history of put, delete, put-if-absent, compare-and-set (atomic or per key), delete-range, expiring puts and server restarts on a region of either store engine: each operation returns the per-key success it would have on a plain map, atomic batches change all keys or none, expired and deleted keys are invisible, point reads, scans, counts, min and max key agree with the map, a read at an earlier timestamp keeps returning the map as it was at that timestamp (except ranges physically deleted since), and a restart loses nothing acknowledged.",
     ["inputs", "history", "crash"], "all operation sequences over generated key sets, raft and mono engines, restart between any two operations",
     "Unit tests need a running cluster or check single operations; conditional batches, snapshots and restarts interact over histories.",
     ["src/engine/raft_store_engine.cc", "src/engine/mono_store_engine.cc", "src/engine/storage.cc", "src/handler/raft_apply_handler.cc", "src/mvcc/reader.cc"],
     [("compute outcome, encode versions, propose", "src/engine/raft_store_engine.cc Writer, src/engine/mono_store_engine.cc Writer"), ("apply", "src/handler/raft_apply_handler.cc")],
     "model-based histories over the real storage, engine, raft-apply and meta code vs a map model with snapshots",
     "One operation at a time; consensus is an inline stand-in that commits at once; rocksdb is an in-memory stand-in with the same ordering, batch and snapshot semantics.")
prop("C06", "Version reads return the newest visible version and nothing else",
     "For every set of stored versions (live, deleted, expiring, expired, any timestamps) and every read timestamp, point reads, range scans, callback scans, counts, min/max key and forward and backward iterators of the key-value, vector and document readers return for each key exactly its newest version at or below the read timestamp when that version is live, with its value and timestamp, in key order, and no other key.",
     ["inputs"], "all version histories over generated keys, all read timestamps and bounds, both iteration directions",
     "Version skipping at key boundaries and tombstones has many adjacent-key cases that few fixed examples reach.",
     ["src/mvcc/reader.cc", "src/mvcc/iterator.cc", "src/mvcc/codec.cc"],
     [("version skipping in both directions", "src/mvcc/iterator.cc"), ("reader queries", "src/mvcc/reader.cc")],
     "generated version histories vs a map-of-versions model, all reader entry points", "Generated search; expiry is decided far from the current time.")
prop("C07", "Paged scan sessions return one consistent snapshot in order",
     "For every interleaving of scan begins, continues with any page sizes, writes, deletes and releases, each scan session (both protocol versions) returns, page by page, exactly the keys and values visible in its range when it began (or at its read timestamp), in key order, without repetition or omission, no page larger than asked, keys without values in key-only mode; after it reports its end it returns nothing, and once released it no longer answers.",
     ["inputs", "history"], "all interleavings of several open sessions with writes on one region, both protocol versions, both engines",
     "Tests use single sequential scans of a quiet store.",
     ["src/scan/scan.cc", "src/scan/scan_manager.cc", "src/engine/storage.cc"], [("session state and paging", "src/scan/scan.cc"), ("session table", "src/scan/scan_manager.cc")],
     "model-based interleavings of sessions and writes vs a snapshot model", "Sessions are interleaved at operation granularity, not in parallel threads; timeouts not driven.")
