LOG_FILES = ["src/log/rocks_log_storage.cc", "src/log/rocks_log_storage.h", "src/log/index_term_map.cc", "src/log/index_term_map.h"]
prop("C25", "The raft log keeps what it acknowledged, per region, across restarts and crashes",
     "For every history of appends, suffix and prefix truncations, resets and installed snapshots on any regions that share one log store, by concurrent threads and with any batching: each region's log is the contiguous run of entries appended and not truncated, read back with the same index, term, type and payload by every reading path; first and last index, terms, configurations and searches agree with it; regions never see each other's entries; no entry is discarded by prefix truncation while another client still holds it, unless the log jumps past its end; after a crash every acknowledged change is there when syncing is on, and otherwise the log is one of its earlier states; a destroyed region leaves nothing behind.",
     ["inputs", "history", "crash", "schedule"], "one to three regions, up to four process lives of up to nine operations per region, threads interleaved at every lock, crash at any such point",
     "Truncation by two clients, batching across regions and crashes combine in ways no unit test enumerates; a lost or stale entry silently diverges a replica.",
     LOG_FILES,
     [("log storage", "src/log/rocks_log_storage.cc"), ("term cache", "src/log/index_term_map.cc")],
     "model-based stateful testing over controlled schedules with crash injection, against a list model driven like braft's log manager",
     "Entries with an empty payload are not generated: nothing appends them, and the storage refuses to read them. Failing writes abort the process by design and are not injected.")
prop("C26", "Splits and merges keep every key in exactly one region on every replica",
     "For every sequence of splits, merges, writes and range deletes on neighbouring raw store regions, with writes or other jobs proposed between a job's validation and its log entries, clients that use an outdated region, crashes of the store in the middle of a job at any storage write, and any order in which a replica applies the logs of the regions involved: the NORMAL regions tile the key space without gap or overlap; each acknowledged write is readable in the region that now holds its key and none is lost, brought back or applied twice; requests carrying an outdated epoch are refused and current ones accepted; epochs only grow; every replica fed the same logs ends with the same regions, ranges, epochs, states and records; no region is left unable to split, merge or serve once jobs are done.",
     ["history", "crash", "schedule"], "up to 24 operations on one to four initial regions, nested jobs before a proposal, the store dying at any of the first 24 writes of a job, one or two further replicas with restarts while they catch up",
     "Merges wait for each other across raft groups and restarts; every defect found needed a crash or a job at one point of another job's course.",
     ["src/handler/raft_apply_handler.cc", "src/raft/store_state_machine.cc", "src/meta/store_meta_manager.cc", "src/store/region_controller.cc", "src/split/split_checker.cc"],
     [("apply handlers", "src/handler/raft_apply_handler.cc"), ("state machine", "src/raft/store_state_machine.cc"), ("region meta", "src/meta/store_meta_manager.cc")],
     "model-based stateful testing with crash injection and replica differential: real region controller, apply handlers and meta on a controlled raft log",
     "Raw store regions with both split strategies; splits and merges of index and document regions are not driven.")
prop("C27", "An installed raft snapshot equals the leader's region, and nothing else",
     "For every history of raw and transactional writes and splits on a leader, with writes applied while its snapshot is being copied, and every way of copying it (any package size, packages lost, repeated, interrupted or read again after a restart of the reader, openers refused because another is open): the copied files are exactly the region's records of every column family as of one log position, the one the region meta in the snapshot names; installing it on a follower, whatever data the follower's region and its other regions hold and at whatever storage write the follower dies, leaves the region's records, range and epoch equal to the leader's at that position and every other region's records untouched, also after later restarts; applying the rest of the log then makes the follower equal to the leader; when nobody reads a snapshot any more nothing it held is still held, and the next one can be opened.",
     ["history", "crash", "inputs"], "one or two neighbouring regions, up to 12 writes before and during the copy, package sizes from one byte, the follower dying at any of the writes of an install, later restarts",
     "A snapshot is copied while the region changes, in packages, over a network that loses them, and installed by a process that may die; a record lost or left behind makes replicas differ for ever.",
     ["src/raft/dingo_filesystem_adaptor.cc", "src/handler/raft_snapshot_handler.cc", "src/raft/store_state_machine.cc", "src/handler/raft_snapshot_handler.h"],
     [("file adaptor", "src/raft/dingo_filesystem_adaptor.cc"), ("snapshot handler", "src/handler/raft_snapshot_handler.cc"), ("state machine", "src/raft/store_state_machine.cc")],
     "model-based stateful testing with a simulated lossy copier and crash injection: leader's files vs. model, follower vs. leader",
     "Snapshots of vector, document and scalar index regions and the loading of vector indexes after an install are not driven; nor are snapshots older than the follower's region, which braft never installs.")
