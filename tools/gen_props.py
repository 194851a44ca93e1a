#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The prose lives here so it can be reviewed with line breaks."""
import json, os
I="include/kelcoro/"
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=" ".join(statement.split()),
      quantifier=dict(over=over,text=" ".join(text.split())),why_tests_cant=" ".join(why.split()),
      anchors=dict(files=[I+f for f in files],
        state=[dict(name=a,meaning=b,where=I+c) for a,b,c in state],
        mechanism=[dict(name=a,where=I+b) for a,b in mech],
        observe_at=list(observe),hook_needed=hook)))

prop("C01","A generator produces exactly its program's sequence, lazily",
"""Iterating a generator produces exactly the values that its body yields, in program order, where yielding the
elements of another generator, of a range, or of a generator of another value type splices those elements in place, to
any nesting depth and also when the nested generator was already partly consumed. The body runs only on demand: not
before the first begin, and never past the yield whose value was last requested. Abandoning the iteration and calling
begin again continues with the next value, and an exhausted generator stays an empty range.""",
["programs","histories"],
"all generator bodies built from yields, loops, nested element-splices (generators, ranges, partly consumed generators, mixed allocators) and all consumer scripts of begin/advance/dereference/abandon",
"The tests iterate a handful of fixed generators to the end; nesting depth, empty leaves in every position, pre-consumed leaves and stop/resume points form an unbounded product they only sample.",
["generator.hpp","noexport/generators_common.hpp"],
[("current_worker/root hand-over when a leaf is attached or finishes","noexport/generators_common.hpp: attach_leaf::await_suspend"),("final_awaiter returns to the owner","generator.hpp: generator_promise::final_suspend"),("iterator advance resumes the innermost worker","generator.hpp: generator_iterator::operator++")],
[("current result pointer","address of the value last yielded; null when done","generator.hpp"),("current worker","innermost generator to resume","generator.hpp")],
["values and side-effect order seen by the consumer"])

prop("C02","Exceptions leave a generator exactly once and iteration can go on",
"""An exception thrown by a generator body reaches the caller of the begin or advance during which it was thrown,
exactly once and as the same exception, after every earlier value was delivered, and leaves that iteration at its end. If it came from a nested generator
whose elements are being spliced, only that nested generator is dropped (a range or a generator of another value type as a whole): a later begin
continues with the elements that its owner yields next. If it came from the outermost body the generator is an empty range from then on, and the locals
of every failed body are destroyed exactly once.""",
["programs","histories","fault_sequences"],
"all programs as in C01 with throws placed at any point of any nesting level (also several), and all consumer reactions (begin again, abandon, destroy)",
"A few tests throw from one place; which level throws, before or after which yield, with what already consumed, and what the consumer does afterwards cannot be enumerated by hand.",
["generator.hpp","noexport/generators_common.hpp"],
[("failed leaf is skipped before rethrow","generator.hpp: generator_promise::unhandled_exception"),("skip_this_leaf restores owner as worker","generator.hpp: generator_promise::skip_this_leaf")],
[],["exception type/payload and position in the consumer's history"])

prop("C03","Generator objects own their body: move, swap, clear, release, reset",
"""A generator object owns its body exclusively: after any sequence of moves, swaps, clear, release, reset and
destruction each body is destroyed exactly once, and the values that were not yet consumed follow the body to its new
owner. A default-constructed, move-constructed-from, cleared or released generator is empty: begin equals end for every value type,
including the valueless one, and nothing is resumed. Swapping exchanges bodies together with what iterators to either
object see, and generators compare equal exactly when they are the same object or both empty.""",
["histories"],
"all sequences of construct/move/swap/clear/release/reset/begin/advance/destroy over several generator objects, in every state of progress",
"Tests move a generator once or twice at fixed points; the state left behind by each operation matters only in combination with the operations that follow.",
["generator.hpp"],
[("swap re-registers the consumer with the body","generator.hpp: generator::swap / prepare_to_start"),("clear/release/reset","generator.hpp")],
[("consumer pointer in the body","where yielded values are published","generator.hpp")],
["model of (object -> body, position) and per-body construction/destruction counts"])

prop("C04","What a yield passes: aliases, owned copies, and no hidden copies",
"""A value yielded by reference tag, or from a generator or channel of references, is the very object the body yielded,
and what the consumer writes to it is what the body sees when it continues. A yielded const lvalue is copied exactly
once, the copy lives until the body continues, and the original never changes (if copying throws, nothing is delivered and the body gets the exception at its yield); a yielded rvalue is passed without any
copy or move, so move-only and immovable values work, and it stays valid until the body continues. Writing through the
output-iterator form delivers exactly the written values to the body, in order.""",
["programs","inputs"],
"all interleavings of yield forms (rvalue, const lvalue, by-reference, reference type, spliced range) with consumer reads, writes and moves, for generators and channels",
"Tests check one yield form per test with one value; copy counts, addresses and write-back after mixed forms and nesting are never checked together.",
["generator.hpp","channel.hpp","noexport/generators_common.hpp"],
[("hold_value_until_resume keeps the copy in the frame","noexport/generators_common.hpp"),("yield_value overload set","generator.hpp: yield_block; channel.hpp: channel_promise"),("output iterator","generator.hpp: generator_output_iterator")],
[],["addresses, copy/move counters and contents on both sides"])

prop("C05","A channel delivers its exact sequence across any suspension",
"""Consuming a channel (iterator, foreach macro or next) delivers exactly the values its body yields, in order, with
spliced channels, channels of another value type and ranges expanded in place at any depth, no matter where the producer
or its nested channels suspend and which thread resumes them. Control returns to the consumer only at a yield, at the end
or at a failure, always to the coroutine that made the latest request, and the producer never runs ahead of the request.
Next yields a null pointer exactly when the channel has no further value (or the body failed), and the channel may be passed on between
consumers (each starting with a begin or next of its own), each continuing where the previous one stopped.""",
["programs","schedules","histories"],
"all channel programs (yields, suspensions on arbitrary executors, nested splices) times all consumer scripts and resume orders, incl. hops between threads",
"The channel tests use one nesting layout and a fixed executor; they cannot cover every suspension point of every nesting level and thread hop.",
["channel.hpp","noexport/generators_common.hpp"],
[("starter/next_awaiter register the consumer","channel.hpp"),("yield transfers control to the registered consumer","channel.hpp: yield_value"),("leaf attach","noexport/generators_common.hpp: attach_leaf")],
[("consumer handle","coroutine resumed at next yield","channel.hpp")],["consumer's history of values against the flattened program"])

prop("C06","Channel failures reach the consumer once; channel objects own their body",
"""An exception in a channel body ends the consumer's current pass after all earlier values were delivered, and is then
available exactly once: rethrown when the iteration's iterator ends its life, or taken from the channel explicitly.
A failed nested channel is skipped, so a new pass continues with what its owner yields next. Moving, swapping,
clearing, releasing and resetting channels in any progress state keeps values, pending exception and body together,
destroys each body exactly once, and leaves move-constructed-from, cleared or released channels empty, where begin equals end and
next is null.""",
["programs","histories","fault_sequences"],
"all channel programs with throws at any nesting level, times consumer reactions, times handle operations between passes",
"Tests throw at one place in one nesting layout; state retained by the channel object between passes and across swap/clear is not exercised.",
["channel.hpp","noexport/generators_common.hpp"],
[("unhandled_exception stores exception and reroutes the final suspend","channel.hpp: channel_promise::unhandled_exception"),("iterator destructor rethrows","channel.hpp: ~channel_iterator"),("swap/clear/release/reset","channel.hpp: channel")],
[],["exceptions and values seen per pass"])

prop("C07","An in-place generator yields its exact sequence, first value eagerly",
"""Creating an in-place generator runs its body up to the first yield (or the end); iterating then delivers exactly the
yielded sequence, with the same aliasing and copy rules as ordinary generators. Obtaining begin any number of times does
not advance it, an exhausted or moved-from one is empty, and after moves and swaps each body is resumed by exactly its
current owner and destroyed exactly once. An exception from the body leaves the advance that caused it and ends the
sequence.""",
["programs","histories"],
"all straight-line and looping bodies without nesting, all consumer scripts and move/swap sequences",
"The repository's tests touch this type with very few fixed bodies and never move it mid-iteration.",
["inplace_generator.hpp"],
[("initial suspend never + iterator resume","inplace_generator.hpp"),("moved-from object gets an empty body","inplace_generator.hpp: move constructor")],
[],["values, side-effect order, frame counts"])

prop("C08","A task runs lazily, once, and hands its result to its awaiter",
"""A task's body does not run before it is awaited, started or blocked on, and then runs exactly once; its awaiter
continues only after the body finished, on whatever thread finished it, and sees exactly the returned value or reference
or the thrown exception (same object). Waiting without taking the result, then awaiting again or getting, completes
without running the body again, and results built in the reserved return place are delivered from that very place
without a copy. Blocking get from an ordinary thread returns the same outcome for bodies that hop across threads.""",
["programs","schedules"],
"all trees of tasks awaiting tasks with values, references, void, move-only and throwing bodies, suspended anywhere and resumed on any thread",
"Tests await shallow fixed task chains on a real pool; they cannot vary where each level suspends or the thread interleaving around completion.",
["task.hpp","common.hpp","async_task.hpp"],
[("initial suspend and symmetric transfer at the end","task.hpp: task_promise"),("awaiter checks done before starting","task.hpp: remember_waiter_and_start_task_t"),("return place","common.hpp: return_block")],
[],["side-effect log vs. model, result identity, copy/move counts"])

prop("C09","Task bodies are destroyed exactly once under every hand-over",
"""Whatever happens to a task object - destroyed unstarted, moved, move-assigned, released, detached to an executor,
started and detached with or without stopping at the end, awaited to completion by an owner that later dies - its body
and all locals, arguments and results are destroyed exactly once and never used afterwards. Detaching leaves the object
empty and lets the body finish on its own; stopping at the end keeps the finished body, with its result, for its holder
to destroy. Starting an empty task is a no-op.""",
["histories","schedules","fault_sequences"],
"all sequences of ownership operations over several tasks in every progress state, including bodies that throw and bodies that finish on another thread",
"Tests detach or release a task once under normal flow; double-destroy and leak paths depend on the order of operations and completion.",
["task.hpp"],
[("detach clears the waiter so the frame frees itself","task.hpp: detach/start_and_detach"),("move assignment swaps","task.hpp")],
[("waiter handle","null: self-destroy at end; noop: stop at end","task.hpp: task_promise::who_waits")],["per-frame life-cycle counts"])

prop("C10","Task context hooks fire once each, in order, with the right coroutines",
"""For every task run, the context's hooks fire as: owner announced (only if some coroutine awaits it, with that
coroutine's handle and the task's own), then start (unless the released handle is resumed by the caller itself), then, after the body and before the awaiter continues, end - each
exactly once, also when the body throws. Tasks combined by the all-of combinator announce the combinator's own task as
their owner, and detached tasks announce none. The context object reachable from inside the body is the one observed
from the task object and by the hooks.""",
["programs","histories"],
"all trees of awaited/combined/detached tasks with a recording context, any completion order and outcome",
"The tests use one context in two fixed trees; hook order relative to completion and across combinators varies with the tree and the outcome.",
["task.hpp","algorithm.hpp"],
[("prepare_task_to_start","task.hpp"),("wait_with_proxy_owner","task.hpp"),("final_suspend calls on_end","task.hpp")],
[],["hook event log vs. model"])

prop("C11","An async task publishes its result once and never leaks, in any schedule",
"""An async task starts running immediately, and once it reports ready, or wait or get returns, get delivers exactly the
value, reference or exception of its body, with everything the body did visible to the caller, however completion on one
thread and waiting, polling, moving, detaching or destroying on another interleave. No waiter blocks forever after the
body finished. The body's frame is destroyed exactly once, after both the body has ended and the object let go of
it, and ignoring the result or exception is safe.""",
["schedules","histories"],
"all interleavings of a completing body with one consumer performing wait/ready/get/detach/move/swap/destroy",
"Tests run a few OS-scheduled interleavings; the window between publishing readiness and dropping the last reference is never forced.",
["async_task.hpp"],
[("ready flag + notify","async_task.hpp: destroy_if_consumer_dead_t"),("two-owner reference count","async_task.hpp: ref_count")],
[("ready","result published","async_task.hpp"),("ref_count","coroutine + object","async_task.hpp")],["result, liveness, frame life-cycle"])

prop("C12","A logical thread stops, joins and detaches safely in any schedule",
"""A logical thread starts immediately; joining returns exactly when its body has ended with all its effects visible, and
afterwards the object is not joinable. Requesting stop is seen by the body's stop token from then on, together with what its
owner did before, and by no other logical thread; destroying or move-assigning over a joinable one requests stop and joins
first, and the stop helper requests
all before joining any. A detached body continues and frees itself: in every interleaving of ending with join, detach,
stop and destruction the frame is destroyed exactly once and nobody blocks forever.""",
["schedules","histories"],
"all interleavings of a running body with request_stop/join/detach/move/swap/destroy by the owner",
"The tests run few real-time interleavings; the race between the end of the body and detach/join is not forced.",
["logical_thread.hpp"],
[("two_way_bound try_inform/wait","logical_thread.hpp"),("stop token","logical_thread.hpp: return_stop_token"),("try_cancel_and_join","logical_thread.hpp")],
[("stopped flag","who came second frees the frame","logical_thread.hpp")],["life-cycle, liveness, stop visibility"])

prop("C13","All-of over tasks runs each once and reports every outcome in place",
"""Awaiting the all-of combination of tasks starts every task exactly once and completes exactly once, after the last of
them has ended, with each outcome (value, void or exception) at its own position, for any number of tasks, in any
completion order, on any threads, and when some or all complete synchronously. The effects of all tasks are visible to
the awaiter, their bodies are destroyed, and an empty dynamic list completes at once with an empty result.""",
["schedules","inputs","fault_sequences"],
"all task counts, value types, outcomes, suspension patterns and completion interleavings",
"Tests use a few small fixed lists on a pool; the last-completes race and mixtures of synchronous, throwing and remote tasks are not enumerated.",
["algorithm.hpp","task.hpp","noexport/expected.hpp"],
[("atomic countdown, last resumes the owner","algorithm.hpp: job_for_when_all"),("expected","noexport/expected.hpp")],
[("count","tasks not yet ended","algorithm.hpp: when_all")],["result tuple/vector vs. model; exactly one continuation"])

prop("C14","First-of over tasks reports the first success, or the last failure",
"""Awaiting the first-of combination starts the tasks and completes exactly once: with the outcome of the first task that
succeeded, tagged with its position, or, only if every task failed, with the exception of the last one that failed; the
result is never the empty alternative. Losing tasks, whenever and on whatever thread they end, neither change the result
nor touch destroyed state, and every task body is destroyed exactly once. A task that has not yet begun when the result
is decided may be dropped without running.""",
["schedules","inputs","fault_sequences"],
"all task counts, outcomes, suspension patterns and completion interleavings including losers that outlive the awaiter",
"Tests cover few fixed orders; late losers, all-fail counting and success-versus-last-failure races depend on interleaving.",
["algorithm.hpp","task.hpp","noexport/expected.hpp"],
[("when_any_state under mutex","algorithm.hpp"),("weak_ptr guards late finishers","algorithm.hpp: job_for_when_any")],
[("owner handle","null once the result is decided","algorithm.hpp: when_any_state")],["result variant vs. completion history"])

prop("C15","An event wakes every waiting coroutine exactly once with its input",
"""A coroutine awaiting an event resumes exactly once, by the first notification whose collection of waiters follows its
subscription, with a copy of that notification's input, on the executor given to it. Notifying returns false exactly when
it woke nobody. For any number of concurrent subscribers and notifiers no subscriber is lost, woken twice or given
another notification's input, and one may await again from within its own wake-up. event_v is one event per input type
and tag, independent of all others.""",
["schedules","histories"],
"all interleavings of subscribe / notify / re-subscribe by several threads, any executor",
"No test in the repository runs the event facility at all; lost and double wake-ups exist only under specific interleavings.",
["events.hpp","nonowner_lockfree_stack.hpp","executor_interface.hpp"],
[("lock-free subscriber stack taken as a whole","events.hpp: notify_all"),("next read before resuming a node","executor_interface.hpp: attach_list")],
[("subscribers","waiting coroutines","events.hpp: event")],["wake-up log vs. subscription/notification history"])

prop("C16","Event callbacks and combined event waits fire exactly once",
"""A callback set on an event runs exactly once, at the next notification, with its input, and then disappears. Awaiting
all of several events resumes exactly once, after each has been notified, with every event's input in its place;
awaiting any of them resumes exactly once, by the first notification, with that event's index and input, and later
notifications of the others are harmless. This holds when the notifications come from different threads at the same
time, and when they arrive while the wait is still being set up.""",
["schedules","histories"],
"all notification orders and interleavings over two or more events, repeated waits, mixed void and value inputs",
"No test in the repository runs these; the races between setting up several subscriptions and the first wake-up are invisible to sequential use.",
["events.hpp","job.hpp"],
[("set_callback coroutine","events.hpp"),("atomic count of fired events","events.hpp: when_all/when_any")],
[("count","events fired so far","events.hpp")],["resume count, inputs, index vs. notification history"])

prop("C17","A latch releases every waiter exactly once when it reaches zero",
"""A coroutine waiting on a latch continues exactly once and never before the count reached zero, and every waiter
continues once it has - however waiting, counting down by any amounts and arriving-and-waiting interleave on any
threads - on the latch's executor, or at once if the count is already zero. Everything done before a count-down is
visible after the wait. Readiness is true exactly from when the count is zero.""",
["schedules","histories"],
"all interleavings of wait / count_down(n) / arrive_and_wait(n) by several coroutines and threads, any initial count and executor",
"Tests run a few pool-scheduled latches; the window between registering a waiter and re-checking the count is not forced.",
["latch.hpp","nonowner_lockfree_stack.hpp"],
[("re-check after push wakes late registrants","latch.hpp: wait_awaiter"),("the decrement to zero wakes all","latch.hpp: count_down")],
[("counter","remaining arrivals","latch.hpp"),("stack","registered waiters","latch.hpp")],["wake-up log vs. counter history"])

prop("C18","A worker or strand runs what it is given in order, one at a time",
"""Work attached to one queue, worker or strand is executed exactly once, in the order of attachment (work attached by
one thread keeps that thread's order, lists keep list order), never two pieces at the same time, and all on that worker's
own thread. A worker blocked on an empty queue always wakes when work arrives. What earlier work did is visible to
later work without further synchronisation.""",
["schedules","histories"],
"all interleavings of several producers (single nodes and lists, also from within running work) with the consuming worker",
"Tests push from few threads and check totals; order, exclusivity and missed-wake-up windows depend on the schedule.",
["thread_pool.hpp","executor_interface.hpp"],
[("mutex-protected linked list, notify on empty->non-empty","thread_pool.hpp: task_queue"),("worker loop reads next before running a node","thread_pool.hpp: default_worker_job"),("strand refers to the worker's queue","thread_pool.hpp: strand")],
[("first/last","FIFO list","thread_pool.hpp: task_queue")],["execution log vs. attach history"])

prop("C19","A thread pool runs every task exactly once on one of its workers",
"""Every coroutine that jumps onto a running pool and every function scheduled on it is executed exactly once, on a
thread the pool reports as its worker, with an ok status, no matter how many threads submit, which hash is used, or
whether submissions come from inside tasks, combinators or events. Work given the same hash, or through the strand for
that hash, runs on one and the same worker in submission order. A list handed to the
pool itself is spread over as many of its workers as it has pieces. The pool has the requested number of workers, at least one.""",
["schedules","configurations","histories"],
"all pool sizes, submission forms (jump, schedule with/without hash, strand, attached lists), submitters and interleavings",
"Tests count completions for a few configurations under the OS scheduler; loss or duplication needs specific interleavings and sizes.",
["thread_pool.hpp","operation_hash.hpp","executor_interface.hpp"],
[("hash selects queue","thread_pool.hpp: select_queue"),("list hand-over spreads nodes","thread_pool.hpp: attach_list(thread_pool&)"),("schedule_to job","thread_pool.hpp: schedule")],
[],["execution log: thread, status, count"])

prop("C20","Stopping or destroying a pool or worker cancels or runs every pending task",
"""However stopping (any number of requests from any threads, also from its own tasks), waiting for the stop,
destruction and concurrent submissions by running tasks interleave, every submitted task is resumed exactly once - run,
or resumed with the cancelled status - before the pool or worker is gone, and a cancelled scheduled function is not
called. Stopping and destruction always terminate, and no task runs after. If starting a worker thread fails during
construction, the error reaches the caller with the already started threads ended and all memory returned.""",
["schedules","fault_sequences","crash_points"],
"all interleavings of submissions with stop/wait/destroy, and a thread-creation or allocation failure at every position of construction",
"Tests destroy pools at a few OS-chosen moments; submissions racing with shutdown and thread-creation failures are not reproducible there.",
["thread_pool.hpp"],
[("dead pill ends a worker, the rest is cancelled","thread_pool.hpp: default_worker_job / cancel_tasks"),("destructor drains queues","thread_pool.hpp: ~thread_pool, ~worker"),("construction rollback","thread_pool.hpp: thread_pool constructor")],
[("pill","queue end marker","thread_pool.hpp: deadpill")],["per-task resume count and status, termination, resource balance"])

prop("C21","The lock-free stack neither loses, duplicates nor reorders nodes",
"""Every node pushed on the shared stack, singly or as a chain, is returned by exactly one take-all, or is still on the
stack; nothing else is ever returned. Taken chains are well formed: they end, nodes pushed by one thread come back in
reverse order of pushing, and a pushed chain keeps its order. What was written before a push is visible to whoever
takes the node.""",
["schedules","histories"],
"all interleavings of push / push_stack / try_pop_all by several threads, including node reuse and spurious CAS failures",
"No test exercises the stack directly; races in a lock-free structure are scheduling-dependent by nature.",
["nonowner_lockfree_stack.hpp"],
[("CAS loop publishing next before top","nonowner_lockfree_stack.hpp: push/push_stack"),("exchange takes all","nonowner_lockfree_stack.hpp: try_pop_all")],
[("top","newest node","nonowner_lockfree_stack.hpp")],["linearizability against a sequential stack"])

prop("C22","The stack memory resource hands out valid, disjoint, reusable memory",
"""For allocations and last-in-first-out deallocations of any sizes, with or without an initial buffer, every block is
aligned for coroutine frames, lies in the buffer or in memory the resource owns, does not overlap any live block, and
keeps its contents until deallocated. Deallocated memory is reused: repeating the same pattern soon asks
the system for nothing new, and a request that fits the free rest of the current block is served from it. Rewinding frees everything as if
deallocated, moves carry all blocks along, and destruction returns all memory exactly once.""",
["histories","inputs"],
"all LIFO allocation histories with any sizes, buffer sizes, rewinds and moves",
"Tests run a few fixed size patterns; chunk boundaries, free-list reuse and rewind interact over histories.",
["stack_memory_resource.hpp"],
[("chunk headers save the previous chunk state","stack_memory_resource.hpp: drop_cur_chunk/allocate"),("first-fit free list","stack_memory_resource.hpp: freelist_t"),("reuse_memory","stack_memory_resource.hpp")],
[("b/m/e","current chunk begin/mark/end","stack_memory_resource.hpp")],["shadow map of live blocks, system-allocation counter"])

prop("C23","Coroutine frames return to the resource they came from, exactly once",
"""Every coroutine frame obtained from a memory resource is returned exactly once to that same resource with the same
address and size, after the frame's contents are gone, for every kind of coroutine, every kind of resource (empty,
stateful, move-only-state, over-sized, polymorphic) and every way a coroutine can end: normally, by exception,
destroyed while suspended, never started, detached, or last released on another thread. The memory is sufficient and
aligned for the frame, and if the resource throws, that exception reaches the caller with nothing leaked.""",
["programs","configurations","fault_sequences"],
"all coroutine kinds x resource kinds x frame sizes x ends of life, with allocation failure at any allocation",
"Tests check a few fixed combinations; padding arithmetic, stored-resource lifetime and failure at each allocation are a product space.",
["memory_support.hpp"],
[("resource stored behind the frame","memory_support.hpp: overload_new_delete"),("deduction through coroutine_traits","memory_support.hpp: coroutine_traits")],
[("on-frame resource","copy used for deallocation","memory_support.hpp")],["allocator log: pointer/size/resource pairing"])

prop("C24","Coroutines allocate from exactly the resource the caller selected",
"""A coroutine whose last parameter is a resource tag allocates from that resource, whatever the other parameters,
object or lambda it is a member of; without one it uses the global allocator, and one declared with a fixed resource uses that one.
The polymorphic form uses the resource passed on this thread for the next such coroutine only, and otherwise the
library's current default, which can be replaced at any time and from any thread. A pool allocates its queues and scheduled
functions from the resource it was given, and reports that resource.""",
["programs","configurations","histories"],
"all parameter lists, coroutine kinds, sequences of pass/set-default/create on several threads, and pool configurations",
"Tests check a few signatures; selection is a function of types and of thread-local and global history.",
["memory_support.hpp","thread_pool.hpp","noexport/fixed_array.hpp"],
[("last argument deduction","memory_support.hpp: last_type_t / coroutine_traits"),("passed_resource thread-local consumed on construction","memory_support.hpp: polymorphic_resource"),("fixed_array keeps the resource","noexport/fixed_array.hpp")],
[("passed resource","one-shot per thread","memory_support.hpp"),("default resource","process-wide","memory_support.hpp")],["which resource each allocation hit"])

prop("C25","Jumping to an executor resumes the coroutine there exactly once",
"""Awaiting a jump suspends the coroutine before it is handed over, hands exactly one node carrying it to the executor, and
resumes only when the executor runs it, reporting the status the executor set (ok by default). This is the same directly,
through a type-erased executor reference or a copy of it, and for executors that resume inline, later, on another thread or never.
Handing over a list attaches each node exactly once in order, even when nodes are destroyed as soon as they are handed over, and
reversing a list reverses exactly its order.""",
["histories","inputs","schedules"],
"all executor behaviours (inline, deferred, threaded, dropped, cancelling), nesting of jumps, and list shapes",
"Tests use one or two executors with fixed sequences; node lifetime errors need an executor that resumes inside attach or on another thread.",
["executor_interface.hpp","thread_pool.hpp"],
[("node lives in the awaiter; task set before attach","executor_interface.hpp: create_node_and_attach"),("next read before attach","executor_interface.hpp: attach_list"),("type erasure","executor_interface.hpp: any_executor_ref")],
[],["attach log and resume log"])

prop("C26","Jobs and control-transfer primitives resume and destroy what they say",
"""A job runs at once, and its frame frees itself when its body ends, wherever that happens. Awaiting a control transfer
resumes exactly the named coroutine (none: the awaiting one continues), destroying the current coroutine destroys
exactly it with its locals once, and destroying with transfer does so before the named coroutine continues.
Suspend-with-function runs the function once with the awaiting coroutine's own handle after it is suspended and
obeys what it returns (suspend, continue, or switch).""",
["programs","histories"],
"all compositions of these primitives in chains and rings of coroutines of every kind",
"Tests use each primitive once in one shape; the order of destruction and resumption varies with composition.",
["common.hpp","job.hpp"],
[("destroy_and_transfer_control_to copies the target first","common.hpp"),("suspend_and","common.hpp"),("job never suspends at its ends","job.hpp")],
[],["event log of resumes/destructions vs. model"])

prop("C27","An operation hash names one coroutine's logical operation for its whole life",
"""Awaiting this_coro::operation_hash in a coroutine of any kind continues at once with exactly what
calculate_operation_hash gives for that coroutine's handle; the value never changes during the coroutine's life, and
allocating the frame from a memory resource does not change it. An awaited task has the hash of the coroutine that awaits
it, a channel spliced into another one (at any depth) has the hash of the outermost channel, other coroutines and objects
hash by their own identity, so that different ones get different hashes. Hence all jumps of one coroutine onto one pool
arrive on one and the same worker.""",
["programs","schedules"],
"all trees of coroutines of every kind awaiting, iterating, splicing and detaching each other with any suspensions and moves of the owning objects; any pool sizes, other threads and interleavings",
"No test asks for a hash or watches which worker a coroutine returns to; which root a nested channel has depends on the history of splices that ended before.",
["operation_hash.hpp","task.hpp","channel.hpp","memory_support.hpp","thread_pool.hpp"],
[("operation_hash specialisations","operation_hash.hpp, task.hpp, channel.hpp, memory_support.hpp"),("splice keeps root","channel.hpp: attach_leaf, skip_this_leaf"),("hash selects queue","thread_pool.hpp: jump_on_thread_pool")],
[("channel_promise::root","outermost channel of the splice","channel.hpp"),("task_promise::who_waits","coroutine that awaits the task","task.hpp")],["hashes inside and outside vs. model","worker ids per coroutine"])

prop("C28","Awaiting, yielding and transferring control again and again uses bounded stack",
"""However often coroutines await tasks, advance channels and generators, splice one into another, finish (with a value or
an exception) and hand control on with transfer_control_to, destroy_and_transfer_control_to or a suspend function that
returns a handle, the thread's stack does not grow with the number of such switches nor with the depth of the chain of
tasks, channels or generators: every switch leaves the stack where it was. (Compilers that turn symmetric transfer into
jumps; the combinators when_all and when_any are not covered.)""",
["programs","histories"],
"any number of switches and any depth of awaiting/splicing chains, any mixture of coroutine kinds, failures included",
"Tests run short programs; thousands of switches in one run are needed before a growing stack shows, and only in the affected combination.",
["task.hpp","channel.hpp","generator.hpp","common.hpp"],
[("task start and end transfer symmetrically","task.hpp: task_awaiter, final awaiter"),("channel consumer/producer switches","channel.hpp: next, yield_value, attach_leaf, final awaiter"),("generator leaf switches","generator.hpp, noexport/generators_common.hpp"),("transfer primitives","common.hpp: transfer_control_to, destroy_and_transfer_control_to, suspend_and")],
[],["stack extent between marks in all bodies and consumers"])

prop("C29","Generators compose with standard views and algorithms, as lazily as alone",
"""Generators and in-place generators are standard input ranges: under any composition of standard view adaptors and
standard algorithms, by reference or moved into the pipeline, and spliced into another generator through such a pipeline,
they produce exactly what a lazy input range over the same sequence produces (values, move-only ones and references
included, failures at the same point) and advance their body exactly as often and at the same moments, round after round
on the same object. An in-place generator's begin does not advance it.""",
["programs","histories"],
"all generator programs x all pipelines of view adaptors and algorithms x repeated use of one generator object",
"Tests iterate with plain loops; which operations a view or algorithm applies to an iterator (extra comparisons, double dereference, copies of iterators, early end) differs per composition.",
["generator.hpp","inplace_generator.hpp","noexport/generators_common.hpp"],
[("iterator advance, comparison, dereference","generator.hpp: generator_iterator; inplace_generator.hpp: inplace_generator_iterator"),("begin continues with the next value","generator.hpp: generator::begin"),("splicing a range","noexport/generators_common.hpp: to_generator")],
[],["values, predicate calls and body effects in one log"])

prop("C30","A failure no consumer can receive ends the program; others end nothing",
"""An exception that leaves the body of a job or a logical thread, or a function given to schedule_to, to a thread pool or
to an event as callback, ends the program through std::terminate at that point - on whatever thread it runs and however
it was started - and is never swallowed. An exception that leaves a task, an async task, a generator, an in-place
generator or a channel never ends the program by itself: it reaches whoever consumes the result, and when nobody asks for
the result (detached, only waited for, one of an all-of wait) everything else goes on as if the body had returned. A
channel has room for one failure: a second one while the first was not taken ends the program.""",
["programs","fault_sequences"],
"all trees of coroutines and functions of all kinds that fail, catch and start each other, on any thread",
"A test program that terminates is a failed test, so no test shows that it must; which coroutine between the throw and the nearest consumer decides the outcome depends on the whole tree.",
["job.hpp","logical_thread.hpp","async_task.hpp","task.hpp","channel.hpp","generator.hpp","inplace_generator.hpp","thread_pool.hpp","events.hpp"],
[("unhandled_exception of every promise","job.hpp, logical_thread.hpp, async_task.hpp, task.hpp, channel.hpp, generator.hpp, inplace_generator.hpp"),("functions run inside jobs","thread_pool.hpp: schedule_to; events.hpp: set_callback")],
[],["terminate handler and log of a separate process"])

prop("C31","Any coroutine awaits any awaitable exactly as the language says",
"""Jobs, tasks, async tasks, logical threads and channels, with or without a memory resource, await foreign awaitables
exactly like a coroutine without any transformation: the same operator co_await (member or free) for the value category
used, then await_ready, await_suspend with the awaiting coroutine's own typed handle and await_resume once each as
required, no copy or move of the awaitable or awaiter, results of every kind (references, immovable, move-only, none)
delivered as they are, exceptions of every stage reaching the body, temporaries dying where the full expression ends.
Conversely the library's awaitables (tasks, channels, events, latches, executor jumps, combinations, suspend-with-function,
the own handle) do the same in any foreign coroutine as in the library's own, and build_awaiter yields the very awaiter
that co_await would use.""",
["programs","histories"],
"all bodies, all awaitable types, value categories, suspension behaviours and failure stages, in every coroutine kind",
"Tests await a handful of the library's own awaitables in the library's own coroutines; no foreign type, category or failing stage.",
["noexport/macro.hpp","common.hpp","task.hpp","async_task.hpp","channel.hpp","logical_thread.hpp","job.hpp","memory_support.hpp"],
[("KELCORO_DEFAULT_AWAIT_TRANSFORM","noexport/macro.hpp"),("build_awaiter","common.hpp"),("await_suspend of every awaiter is generic in the promise","task.hpp, channel.hpp, events.hpp, latch.hpp, executor_interface.hpp")],
[],["history of protocol calls, copies, destructions and values, compared with a plain coroutine"])


prop("C32","Any headers, in any order and in several units, make one program",
"""Every public header can be the first and only thing a translation unit includes, headers can be combined in any order,
and any number of units of one program may include them, with every supported compiler, language version, optimisation
level, with or without assertions: the units compile, link, and are one program. A coroutine, event, pool, resource or
hash defined or set in one unit is the same thing in every other: coroutines are awaited and iterated across units,
events of one tag are one event, the default memory resource and the one passed for the next coroutine are those the
other unit set, and hashes agree.""",
["programs","configurations"],
"all sets and orders of headers per unit, all numbers of units, parts defined and used in different units",
"Each test is one unit with one fixed order of includes; what is missing in a header, or defined twice or apart in two units, cannot show.",
["memory_support.hpp","events.hpp","thread_pool.hpp","operation_hash.hpp","common.hpp","executor_interface.hpp","kelcoro.hpp"],
[("the resources","memory_support.hpp: polymorphic_resource::default_resource, passed_resource"),("event_v","events.hpp"),("functions that are no templates","thread_pool.hpp: default_worker_job, attach_list, jump_on; memory_support.hpp; operation_hash.hpp")],
[],["compiler and linker results, output of the program"])


prop("C33","Concepts accept exactly the right types, and deduced types are right",
"""memory_resource and executor (and construction of a type-erased executor reference from an lvalue) accept exactly the
types whose accessible members can be used as the interface demands: an object type with allocate giving a void pointer
and a deallocate giving nothing, movable without throwing, not over-aligned, default constructible if it is empty; an
object with attach for a task node. co_awaiter, co_awaitable, has_member_co_await and has_global_co_await say exactly
which forms of awaiting an expression of a type has, its value category, constness and the access to its members
included; yieldable accepts exactly unqualified object types and lvalue references. A parameter list selects a memory
resource exactly if its last parameter is a resource tag, by value or by any reference, const or not, wherever else tags
appear, and the coroutine then has the promise of its kind that knows this resource. Generators, channels, tasks and
async tasks are move-only without throwing, with or without a resource in their type; iterators, awaits, gets and the
combinators have exactly the value, reference and result types that follow from what is yielded or returned.""",
["programs"],
"all user types with any form of the members asked for, all parameter lists, all yielded and returned types",
"Tests use a handful of well-behaved types; which other types are accepted or refused, and which types are deduced for them, is decided per type.",
["memory_support.hpp","executor_interface.hpp","common.hpp","noexport/generators_common.hpp","generator.hpp","channel.hpp","inplace_generator.hpp","task.hpp","async_task.hpp","algorithm.hpp"],
[("memory_resource, last_is_memory_resource_tag","memory_support.hpp"),("executor, any_executor_ref","executor_interface.hpp"),("co_awaiter, co_awaitable, yieldable","common.hpp")],
[],["verdict of the compiler on one static_assert per question"])


out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
