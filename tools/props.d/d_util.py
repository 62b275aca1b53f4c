prop("C08", "Vector arithmetic kernels agree with their definition",
     "For all vector lengths, values and buffer placements, every variant (generic, SSE, AVX, AVX512 and whichever the process selects) of squared distance, inner product, L1 and Linf distance, squared norm, their one-to-many forms, multiply-add and multiply-add-argmin returns the mathematically defined value (exactly whenever all intermediate results are representable, within rounding otherwise), reads and writes nothing outside its buffers, and the selected variant is the best one enabled and supported.",
     ["inputs"], "lengths 1-300, integer and real values, buffers ending or starting at an unmapped page, all alignments",
     "Kernels split a vector into blocks and tails; errors live in specific residues, alignments and special lengths.",
     ["src/simd/distances_sse.cc", "src/simd/distances_avx.cc", "src/simd/distances_avx512.cc", "src/simd/distances_ref.cc", "src/simd/hook.cc"],
     [("kernels", "src/simd/distances_sse.cc, src/simd/distances_avx.cc, src/simd/distances_avx512.cc, src/simd/distances_ref.cc"), ("selection", "src/simd/hook.cc")],
     "differential property testing of all variants against double-precision definitions, with guard pages",
     "AVX2 and AVX512 variants are checked only where the processor has them.")
prop("C09", "Latches exclude conflicting commands and let every command through",
     "For every set of commands with any key sets arriving, waiting, being woken, releasing and handing latches to a successor in any order or thread schedule: at most one command at a time holds the latch of a key, waiters of a key get it in arrival order, a release wakes exactly the commands now first in line, keys that merely share a slot do not block each other, and once holders release every waiting command eventually acquires all of its latches.",
     ["inputs", "history", "schedule"], "up to 26 steps by any number of commands over 1-6 keys and 1-64 slots; 2-4 threads with preemption at every lock operation",
     "Deadlock, lost wake-ups and double grants need particular arrival orders or preemptions that a sequential unit test cannot produce.",
     ["src/common/latch.cc", "src/server/service_helper.cc", "src/meta/store_meta_manager.cc", "src/common/synchronization.cc"],
     [("latch queues", "src/common/latch.cc"), ("waiting and waking", "src/server/service_helper.cc, src/meta/store_meta_manager.cc")],
     "model-based stateful testing against per-key queues, plus random deterministic thread schedules checked for exclusion and deadlock",
     "Threads are preempted at lock, condition, thread and sleep operations, not at plain memory accesses.")
prop("C10", "Accepted tasks run exactly once; waiting never loses a wake-up",
     "For every schedule of callers, workers, resizing and shutdown: each task a worker set or thread pool accepts runs exactly once (before shutdown returns), a refused one never; a worker set refuses only while more tasks are unfinished than its limit and always when clearly more are; tasks of one region submitted to an execution queue set run one at a time in the caller's order; priority sets run waiting tasks by priority; counters of pending and total tasks are exact when idle; joining a task returns after it ran, even if it threw; reader-writer locks exclude writers, counted conditions and resource pools block and release correctly, and nothing waits forever.",
     ["inputs", "schedule"], "1-3 workers, 1-3 callers, up to 18 tasks, any limit, with pool resizing and shutdown; preemption at every lock operation",
     "The defects are races between counting, queueing, waiting and stopping; unit tests see one lucky schedule.",
     ["src/common/runnable.cc", "src/common/runnable.h", "src/common/threadpool.cc", "src/common/synchronization.cc", "src/common/synchronization.h"],
     [("worker sets", "src/common/runnable.cc"), ("thread pool", "src/common/threadpool.cc"), ("locks and conditions", "src/common/synchronization.cc")],
     "random deterministic thread schedules (interposed pthread primitives) with history invariants and deadlock detection",
     "Threads are preempted at lock, condition, thread and sleep operations, not at plain memory accesses. Submitting to a set that is being destroyed is not covered.")
prop("C11", "Shared containers and registries behave like their sequential models",
     "For every history of operations, the safe maps return and contain exactly what a plain map would (conditional puts, batch updates, filters, ranges, interval lookups, copies), and under every thread schedule exactly one conditional insert of a key wins and batches are seen whole; the stream registry finds, renews, limits and recycles exactly the streams that were opened and left idle; failpoint configurations are parsed into exactly the configured actions, malformed ones refused, and limited actions run no more often than allowed.",
     ["inputs", "history", "schedule"], "histories of up to 24 operations over 9 keys; 2-3 threads",
     "These structures sit under every service; a slip in one conditional operation corrupts region or stream bookkeeping only in particular histories.",
     ["src/common/safe_map.h", "src/common/stream.cc", "src/common/failpoint.cc"],
     [("safe maps", "src/common/safe_map.h"), ("stream registry", "src/common/stream.cc"), ("failpoints", "src/common/failpoint.cc")],
     "model-based stateful testing, plus random deterministic thread schedules",
     "The double-buffered data underneath the maps is a stand-in for brpc's.")
