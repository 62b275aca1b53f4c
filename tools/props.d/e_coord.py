COORD_FILES = ["src/coordinator/coordinator_meta_storage.h", "src/event/state_machine_event.cc", "src/raft/state_machine.cc"]
prop("C20", "The timestamp oracle never hands out a timestamp twice nor goes back",
     "For every history of timestamp requests, clock jumps, periodic ticks, forced resets, leader changes, cut-off leaders, lost or late log entries, crashes and snapshot installs: no timestamp is handed out twice, every answered request gets timestamps above all those answered before it began (by a leader that is still the leader), the range it promises is inside what the persisted time window allows, requests for zero, negative or too many timestamps are refused, no request aborts the process, and a leader that reaches a majority again eventually answers.",
     ["inputs", "history", "crash", "schedule"], "three coordinator replicas, up to about 40 steps, virtual clock jumping both ways, dropped or doubtful log entries",
     "Duplicates arise only when a new leader overlaps the saved window of an old one, or when the clock steps back at the wrong time; no unit test reaches them.",
     ["src/coordinator/tso_control.cc", "src/coordinator/tso_control.h"] + COORD_FILES,
     [("timestamp oracle", "src/coordinator/tso_control.cc"), ("leader start and replay", "src/event/state_machine_event.cc, src/raft/state_machine.cc")],
     "model-based stateful testing of three real replicas over a simulated log, with fault injection, against uniqueness and real-time-order invariants",
     "A leader that does not know it was replaced is checked for uniqueness only. A forced reset is an administrator's override and starts a new history.")
prop("C21", "Auto-increment ids are handed out once, in order, on every replica",
     "For every history of create, update, generate, delete and read requests on any tables, including requests that race at the point between validation and log, leader changes, cut-off leaders, lost entries, crashes during apply and snapshot installs: the ranges generated for one counter never overlap, follow the requested increment and offset, contain exactly the requested number of ids, a counter never moves back except by an accepted forced update or delete and re-create, an answered request is never lost, a refused one changes nothing, and all replicas agree.",
     ["inputs", "history", "crash", "schedule"], "three coordinator replicas, up to about 40 steps over four tables, increments and offsets across the whole uint32 range",
     "Uniqueness fails only for requests validated before and applied after another, or after failover or at large increments; users rely on it for primary keys.",
     ["src/coordinator/auto_increment_control.cc", "src/coordinator/auto_increment_control.h"] + COORD_FILES,
     [("auto increment", "src/coordinator/auto_increment_control.cc")],
     "model-based stateful testing of three real replicas over a simulated log, with fault injection, against an exact reference model",
     "Counters running past the largest signed 64-bit id are not covered.")
prop("C22", "Version kv: revisions, leases and watches are one exact history on every replica",
     "For every history of puts, ranges, deletes, compactions, lease grants, revokes, renewals and expiries, and watches, by requests that may race between validation and log, with leader changes, lost or doubtful log entries, crashes before and during apply, restarts and snapshot installs: every replica that applied the log holds exactly the keys, values, versions, create and modify revisions, past revisions, compactions and leases that the history in log order gives; ranges return the latest live values in key order with the right counts; previous values are the right ones; revisions only grow; a key attached to a lease lives until that lease ends and no longer, and no other key dies with it; a watch delivers the first matching event after its start revision, exactly once; an entry applied again after a crash changes nothing.",
     ["inputs", "history", "crash", "schedule"], "three coordinator replicas, up to 60 steps over a few nested keys and leases, virtual clock, log faults",
     "Revision and lease state is a fold over the whole history; the faults come from races between validation and log, from replay and from periodic tasks, none of which a unit test runs.",
     ["src/coordinator/kv_control.cc", "src/coordinator/kv_control.h", "src/coordinator/kv_control_fsm.cc", "src/coordinator/kv_control_kv.cc", "src/coordinator/kv_control_lease.cc", "src/coordinator/kv_control_watch.cc", "src/server/version_service.cc"] + COORD_FILES,
     [("version kv and its leases and watches", "src/coordinator/kv_control*.cc"), ("request handlers", "src/server/version_service.cc")],
     "model-based stateful testing of three real replicas over a simulated log, with fault injection, against an exact reference model",
     "Watches registered while the leader stops, and lease grants of the same id that race, are not covered.")
