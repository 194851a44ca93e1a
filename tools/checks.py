"""What each property's check runs: (harness, flavour, mode, number of cases in the quick tier)."""

SAN = ["-fsanitize=address,undefined", "-fno-sanitize=vptr"]
FLAVOURS = {
    # asserts on
    "a": ("g++", ["-O1", *SAN]),
    # races: only the happens-before edges of the code under test exist (asserts off: they load atomics, too)
    "t": ("clang++", ["-O1", "-DNDEBUG", "-fsanitize=thread"]),
    # asserts off (KELCORO_ASSUME is an assumption), other compiler
    "c": ("clang++", ["-O2", "-DNDEBUG", "-fsanitize=address"]),
}

CHECKS = {
    "C01": dict(technique="property-based testing: random yield programs vs. flattening reference model", runs=[("h_gen", "a", "gen_seq", 400000), ("h_gen", "c", "gen_seq", 200000)]),
    "C02": dict(technique="property-based testing: random throwing yield programs vs. flattening reference model", runs=[("h_gen", "a", "gen_exc", 400000), ("h_gen", "c", "gen_exc", 200000)]),
    "C03": dict(technique="stateful property-based testing of generator ownership vs. reference model", runs=[("h_gen", "a", "gen_ops", 400000), ("h_gen", "c", "gen_ops", 200000)]),
    "C04": dict(technique="property-based testing: yielded and received values of instance-counted types vs. reference model", runs=[("h_yield", fl, m, n) for fl, n in (("a", 60000), ("c", 40000)) for m in ("yield_gen", "yield_chan", "yield_inpl", "yield_out")]),
    "C05": dict(technique="property-based testing: random channel programs and consumers vs. flattening reference model, sequential and under generated schedules (ASAN, TSAN)", runs=[("h_chan", "a", "chan_seq", 200000), ("h_chanm", "a", "chan_mt", 80000), ("h_chanm", "t", "chan_mt", 80000), ("h_chan", "c", "chan_seq", 100000)]),
    "C06": dict(technique="stateful property-based testing of channels (exceptions, ownership) vs. reference model, sequential and under generated schedules", runs=[("h_chan", "a", "chan_exc", 200000), ("h_chan", "a", "chan_ops", 200000), ("h_chanm", "a", "chan_exc_mt", 80000), ("h_chanm", "t", "chan_exc_mt", 80000), ("h_chan", "c", "chan_exc", 100000), ("h_chan", "c", "chan_ops", 100000)]),
    "C07": dict(technique="stateful property-based testing of inplace_generator vs. reference model", runs=[("h_yield", "a", "inpl_ops", 200000), ("h_yield", "a", "yield_inpl", 60000), ("h_yield", "c", "inpl_ops", 100000)]),
    "C08": dict(technique="stateful property-based testing of tasks + generated schedules (controlled scheduler, ASAN and TSAN)", runs=[("h_task", "a", "task_seq", 200000), ("h_taskm", "a", "task_mt", 60000), ("h_taskm", "t", "task_mt", 60000), ("h_task", "c", "task_seq", 100000)]),
    "C09": dict(technique="stateful property-based testing of task ownership + generated schedules (ASAN, leak accounting)", runs=[("h_task", "a", "task_seq", 300000), ("h_taskm", "a", "task_mt", 100000), ("h_task", "c", "task_seq", 100000)], extra=[("h_taskm", "t", "task_mt", 60000)]),
    "C10": dict(technique="property-based testing of context hooks against the awaiting structure, sequential and under generated schedules", runs=[("h_task", "a", "task_ctx", 200000), ("h_taskm", "a", "task_ctx_mt", 60000), ("h_comb", "a", "all_seq", 60000), ("h_comb", "a", "any_seq", 60000), ("h_task", "c", "task_ctx", 100000)], extra=[("h_taskm", "t", "task_ctx_mt", 60000)]),
    "C11": dict(technique="property-based testing with generated schedules (controlled scheduler, ASAN and TSAN)", runs=[("h_async", "a", "async_mt", 160000), ("h_async", "t", "async_mt", 160000)]),
    "C12": dict(technique="property-based testing with generated schedules (controlled scheduler, ASAN and TSAN)", runs=[("h_async", "a", "lthread_mt", 160000), ("h_async", "t", "lthread_mt", 160000)]),
    "C13": dict(technique="property-based testing, sequential orders and generated schedules, against the outcome model (ASAN, TSAN)", runs=[("h_comb", "a", "all_seq", 200000), ("h_comb", "a", "all_mt", 80000), ("h_comb", "t", "all_mt", 80000), ("h_comb", "c", "all_seq", 100000), ("h_bulk", "a", "all_bulk", 12000)]),
    "C14": dict(technique="property-based testing, sequential orders and generated schedules, against an order oracle (ASAN, TSAN)", runs=[("h_comb", "a", "any_seq", 200000), ("h_comb", "a", "any_mt", 80000), ("h_comb", "t", "any_mt", 80000), ("h_comb", "c", "any_seq", 100000)]),
    "C15": dict(technique="property-based testing with generated schedules, interval oracle over the history (ASAN, TSAN)", runs=[("h_event", "a", "event_mt", 160000), ("h_event", "t", "event_mt", 160000), ("h_bulk", "a", "event_bulk", 20000)]),
    "C16": dict(technique="property-based testing with generated schedules, interval oracle over the history (ASAN, TSAN)", runs=[("h_event", "a", "evcomb_mt", 160000), ("h_event", "t", "evcomb_mt", 160000), ("h_bulkev", "a", "evcomb_bulk", 40000)]),
    "C17": dict(technique="property-based testing with generated schedules (controlled scheduler, ASAN and TSAN)", runs=[("h_event", "a", "latch_mt", 200000), ("h_event", "t", "latch_mt", 200000), ("h_bulk", "a", "latch_bulk", 60000)]),
    "C18": dict(technique="property-based testing with generated schedules, FIFO oracle over the history (ASAN, TSAN)", runs=[("h_pool", "a", "queue_mt", 300000), ("h_pool", "t", "queue_mt", 300000), ("h_bulk", "a", "queue_bulk", 20000), ("h_bulk", "a", "pool_bulk", 4000)], extra=[("h_pool", "c", "queue_mt", 300000)]),
    "C19": dict(technique="property-based testing with generated schedules, per-worker and per-hash order oracle (ASAN, TSAN)", runs=[("h_pool", "a", "pool_mt", 30000), ("h_pool", "t", "pool_mt", 30000), ("h_bulk", "a", "pool_bulk", 8000)], extra=[("h_pool", "c", "pool_mt", 30000)]),
    "C20": dict(technique="property-based testing with generated schedules and injected start/allocation failures (ASAN, TSAN)", runs=[("h_pool", "a", "stop_mt", 30000), ("h_pool", "t", "stop_mt", 30000), ("h_pool", "a", "wstop_mt", 80000), ("h_pool", "t", "wstop_mt", 80000), ("h_pool", "a", "start_fail", 40000), ("h_pool", "t", "start_fail", 40000), ("h_bulk", "a", "pool_bulk", 8000)], extra=[("h_pool", "c", "stop_mt", 30000)]),
    "C21": dict(technique="property-based testing with generated schedules, order and completeness oracle over the history (ASAN, TSAN)", runs=[("h_stack", "a", "stack_mt", 300000), ("h_stack", "t", "stack_mt", 300000), ("h_bulk", "a", "stack_bulk", 20000)]),
    "C22": dict(technique="stateful property-based testing against a model of blocks", runs=[("h_mem", "a", "stack_mem", 100000), ("h_mem", "c", "stack_mem", 300000)]),
    "C23": dict(technique="property-based testing of coroutine trees on recording resources, with injected failures and generated schedules (ASAN, TSAN)", runs=[("h_frame", "a", "frame_seq", 300000), ("h_frame", "a", "frame_stack", 100000), ("h_frame", "a", "frame_mt", 160000), ("h_frame", "t", "frame_mt", 160000)]),
    "C24": dict(technique="property-based testing of resource selection against a model, sequential and under generated schedules (ASAN, TSAN)", runs=[("h_select", "a", "select_seq", 200000), ("h_select", "a", "select_mt", 160000), ("h_select", "t", "select_mt", 160000), ("h_select", "a", "pool_res", 120000), ("h_select", "c", "select_seq", 100000)], extra=[("h_select", "t", "pool_res", 120000)]),
    "C25": dict(technique="property-based testing with generated executors and schedules against a log oracle (ASAN, TSAN)", runs=[("h_exec", "a", "jump_mt", 160000), ("h_exec", "t", "jump_mt", 160000), ("h_exec", "a", "jump_new_mt", 80000), ("h_exec", "t", "jump_new_mt", 80000), ("h_exec", "a", "lists", 100000), ("h_exec", "c", "lists", 50000)]),
    "C26": dict(technique="stateful property-based testing of primitives in chains and rings of coroutines vs. a log model", runs=[("h_prim", "a", "prim_seq", 300000), ("h_prim", "c", "prim_seq", 300000), ("h_exec", "a", "jump_mt", 80000)], extra=[("h_prim", "t", "prim_seq", 100000)]),
    "C27": dict(technique="property-based testing of operation hashes over random coroutine trees vs. a model, and of arrival workers under generated schedules (ASAN, TSAN)", runs=[("h_hash", "a", "hash_seq", 200000), ("h_hash", "a", "hash_pool", 30000), ("h_hash", "t", "hash_pool", 30000), ("h_hash", "c", "hash_seq", 100000)]),
    "C28": dict(technique="property-based testing of stack consumption of random await/yield/transfer programs against a constant bound", runs=[("h_depth", "c", "depth_seq", 6000)]),
    "C29": dict(technique="differential property-based testing: generators under standard views and algorithms vs. a hand-written lazy input range", runs=[("h_range", "a", "range_seq", 300000)], extra=[("h_range", "c", "range_seq", 150000)]),
    "C30": dict(technique="property-based testing: random trees of failing coroutines, each in its own process, vs. a model of where failures go", runs=[("h_term", "a", "term_proc", 40000)], extra=[("h_term", "c", "term_proc", 6000)]),
    "C31": dict(technique="property-based testing, differential: the same random body in a plain coroutine (ASAN, UBSAN)", runs=[("h_await", "a", "await_diff", 400000)], extra=[("h_await", "c", "await_diff", 200000)]),
    "C32": dict(technique="property-based testing: generated programs of several translation units (headers, orders, configurations, parts) vs. a model of their output", runs=[("h_unit", "a", "unit_prog", 260)], thorough=8),
    "C33": dict(technique="property-based testing: generated types and parameter lists, concepts and deduced types vs. what the generator knows about them (programs of static_asserts)", runs=[("h_types", "a", "type_facts", 260)], thorough=8),
}
NOT_APPLICABLE = {}
