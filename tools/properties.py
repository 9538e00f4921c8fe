#!/usr/bin/env python3
"""Single source of properties.jsonl: run it after editing (python3 tools/properties.py)."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=["include/boost/cobalt/" + f if not f.startswith("src/") and not f.startswith("doc/") else f for f in files],
                   state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                   mechanism=[dict(name=n, where=w) for n, w in mech],
                   observe_at=list(observe), hook_needed=None)))

prop("C01", "Promises run eagerly and deliver their outcome exactly once",
 "A promise starts running when it is called, and awaiting it (or taking it once it reports ready) yields exactly the value or exception its body ended with, exactly once, no matter whether the body finished before or after the await. "
 "Moving, assigning over, detaching, cancelling or dropping a promise at any point neither loses, duplicates nor corrupts an outcome, and destroys the body's locals and result exactly once. "
 "Dropping or assigning over an attached unfinished promise cancels its body; a detached one runs on undisturbed. Awaiting or taking one that was moved from while it ran reports an error.",
 ["histories", "schedules", "inputs"], "every sequence of create/await/take/move/assign/cancel/detach/drop over several promises, every point at which the body suspends, resumes, returns or throws, every result type",
 "test/promise.cpp runs about a dozen fixed scripts; none assigns over a finished promise or interleaves lifetime operations with completion",
 ["promise.hpp", "detail/promise.hpp"],
 [("receiver hand-over (result, exception, done, cancelled) between promise object and coroutine frame", "include/boost/cobalt/detail/promise.hpp"), ("cancellation on destruction", "include/boost/cobalt/promise.hpp")],
 [("promise_receiver", "result/exception slot, done flag and back reference", "include/boost/cobalt/detail/promise.hpp")],
 ["co_await result", "promise::ready/get", "instance counters in the body"])

prop("C02", "Tasks are lazy, run exactly once and deliver their outcome to the awaiter",
 "Calling a task runs nothing of its body until it is awaited or spawned; then the body runs exactly once, on the executor of whoever awaits or spawns it, and its value or exception reaches that awaiter exactly once. "
 "A task that is moved, assigned over or dropped before being awaited never runs, and its frame and arguments are destroyed exactly once.",
 ["histories", "schedules", "inputs"], "all nestings of tasks, all suspension points, every outcome, moves and drops at every point, awaiting more than once",
 "test/task.cpp is not built by the default test run here and samples single scripts",
 ["task.hpp", "detail/task.hpp", "spawn.hpp", "detail/spawn.hpp"],
 [("lazy start & executor adoption on await", "include/boost/cobalt/detail/task.hpp"), ("spawn completion", "include/boost/cobalt/detail/spawn.hpp")],
 [("task_receiver", "result/exception slot and link to the frame", "include/boost/cobalt/detail/task.hpp")],
 ["body start markers", "executor observed inside the body", "co_await result"])

prop("C03", "Generators deliver every yielded value in order and their end exactly once",
 "Awaiting a generator yields exactly the values its body yields, in order and without loss or duplication, then its return value; an exception thrown by the body reaches the awaiter at its place in that sequence. "
 "A value pushed by the awaiter is what the corresponding yield evaluates to; an eager generator runs ahead by at most one value and a lazy one not at all, and the generator converts to true exactly while it can still deliver. "
 "Moving, cancelling, detaching or dropping a generator at any point destroys locals and values exactly once.",
 ["histories", "schedules", "inputs"], "all body scripts (yields, suspensions, throws, returns), all consumer scripts (await, push, ready/get, move, drop), all interleavings",
 "test/generator.cpp runs a handful of fixed bodies",
 ["generator.hpp", "detail/generator.hpp"],
 [("yield/resume hand-over", "include/boost/cobalt/detail/generator.hpp"), ("lazy start (this_coro::initial)", "include/boost/cobalt/detail/generator.hpp")],
 [("generator_receiver", "result, pushed_value, exception and done", "include/boost/cobalt/detail/generator.hpp")],
 ["co_await result", "operator bool / ready()", "values seen by the body"])

prop("C04", "Channels deliver every message exactly once, in order, within capacity",
 "Every message whose write completed is delivered to exactly one read in write order, and a write or read that reports failure had no effect, also when operations are raced, cancelled or the channel is closed; messages accepted before a close can still be read. "
 "A channel never holds more messages than its capacity, an operation that can proceed does not stay suspended, and one that needs no partner does not suspend. "
 "After close, operations that cannot be satisfied report broken_pipe; destroying a channel destroys the coroutines suspended on it.",
 ["schedules", "histories", "inputs"], "any number of readers and writers, any capacity, any interleaving of operations, resumptions, races, cancellations and closes, copyable, move-only and void messages",
 "test/channel.cpp is not built by the default test run here; races of wake-up, cancellation and close need specific interleavings",
 ["channel.hpp", "impl/channel.hpp", "src/channel.cpp"],
 [("rendezvous, buffering and wake-up of queued operations", "include/boost/cobalt/impl/channel.hpp"), ("channel<void>", "src/channel.cpp")],
 [("buffer_/n_", "messages in flight", "include/boost/cobalt/channel.hpp"), ("read_queue_/write_queue_", "suspended operations", "include/boost/cobalt/channel.hpp")],
 ["results of read/write", "await_ready"])

prop("C05", "race reports exactly one winner and stops the others",
 "race and left_race complete with the index and outcome of exactly one branch, the first to complete (for left_race the first in argument order among those already complete), including when that outcome is an exception. "
 "Every other branch is cancelled, or, when passed as an interruptible lvalue, interrupted and left intact for a later await; none is resumed or loses a result afterwards, and the race itself completes only once no branch refers to it any more. "
 "This holds for variadic and ranged forms, void and non-void results, nested races and races that are themselves cancelled.",
 ["schedules", "inputs", "histories"], "any number and kind of branches, any completion order including ready branches, simultaneous completion and branches that ignore cancellation",
 "test/race.cpp and left_race.cpp use timers in a few fixed orders",
 ["race.hpp", "detail/race.hpp", "detail/fork.hpp"],
 [("race_variadic_impl / race_ranged_impl", "include/boost/cobalt/detail/race.hpp"), ("fork shared state", "include/boost/cobalt/detail/fork.hpp")],
 [("index", "the winner", "include/boost/cobalt/detail/race.hpp"), ("cancel/working", "branches still to be stopped", "include/boost/cobalt/detail/race.hpp")],
 ["race result", "completion and cancellation of instrumented branches"])

prop("C06", "gather collects every branch's outcome in its place",
 "gather completes exactly when every branch has completed, and reports for each branch, at that branch's position, exactly the value or exception it ended with; a failing branch never stops the others. "
 "Cancelling a gather cancels every branch that is still running, and it still waits for and reports all of them; interrupting it leaves branches passed as lvalues intact.",
 ["schedules", "inputs"], "any number and kind of branches, any completion order, variadic and ranged forms, void and non-void",
 "test/gather.cpp has four fixed scenarios",
 ["gather.hpp", "detail/gather.hpp", "detail/fork.hpp"],
 [("gather_variadic_impl / gather_ranged_impl", "include/boost/cobalt/detail/gather.hpp")], [], ["gather result", "instrumented branches"])

prop("C07", "join completes with all values or with the first failure",
 "If every branch succeeds, join completes once all have, with each branch's value at its position. "
 "If a branch fails, join cancels the branches still running, waits for all of them, and reports the error of the branch that failed first, whatever the others then do; cancelling a join cancels all running branches, interrupting it leaves those passed as lvalues intact.",
 ["schedules", "inputs"], "any number and kind of branches, any completion and failure order, variadic and ranged forms, void and non-void",
 "test/join.cpp has six fixed scenarios",
 ["join.hpp", "detail/join.hpp", "detail/fork.hpp"],
 [("join_variadic_impl / join_ranged_impl", "include/boost/cobalt/detail/join.hpp")], [], ["join result", "instrumented branches"])

prop("C08", "wait_group tracks its promises exactly",
 "A wait_group's size counts exactly the promises pushed and not yet awaited or reaped; wait completes once all it started with have ended, wait_one once one has, removing exactly that one and reporting its failure. "
 "cancel reaches every running promise, awaiting an empty group completes at once, and await_exit cancels as the group was built to (or doesn't) and leaves none of its promises running.",
 ["histories", "schedules"], "all sequences of push_back/wait/wait_one/await_exit/cancel/reap/size with promises finishing, throwing or ignoring cancellation in any order",
 "test/wait_group.cpp has three fixed scenarios",
 ["wait_group.hpp", "detail/wait_group.hpp", "src/wait_group.cpp"] if False else ["wait_group.hpp", "detail/wait_group.hpp"],
 [("wait_wrapper / wait_one_wrapper", "include/boost/cobalt/detail/wait_group.hpp")],
 [("waitables_", "the group's promises", "include/boost/cobalt/wait_group.hpp")], ["size()", "co_await results", "bodies of the promises"])

prop("C09", "with runs the teardown exactly once and preserves the outcome",
 "with runs its body, then its teardown exactly once, after the body and its locals are gone, no matter whether the body returns or throws, suspends or not, or gets cancelled; the resource lives until the teardown is complete. "
 "The teardown receives the body's exception or none, and with completes with the body's value or exception.",
 ["inputs", "schedules"], "every body outcome, suspension pattern, cancellation point, teardown form and result type",
 "test/with.cpp is not built by the default test run here",
 ["with.hpp", "detail/with.hpp"], [("with_impl", "include/boost/cobalt/detail/with.hpp"), ("with overloads", "include/boost/cobalt/with.hpp")], [],
 ["teardown calls", "resource liveness", "result of co_await with"])

prop("C10", "Cancellation reaches what is being awaited, once, as configured",
 "A cancellation request to a coroutine is forwarded, with its type, to the operation it is awaiting at that moment, through any nesting of promises, tasks, generators, race, gather, join and with, and never to an operation it awaits no more. "
 "The coroutine's cancellation state reports it according to the active filter until reset; with throw_if_cancelled enabled (the default for coroutines that support it) the next await throws operation_aborted, and with it disabled awaits proceed.",
 ["schedules", "histories", "programs"], "all nestings, cancellation types, filters, points in time, repeated requests and resets",
 "test/this_coro.cpp samples single states; nesting and timing are not explored",
 ["this_coro.hpp", "detail/forward_cancellation.hpp", "detail/promise.hpp", "detail/task.hpp", "detail/generator.hpp"],
 [("forward_cancellation", "include/boost/cobalt/detail/forward_cancellation.hpp"), ("promise_cancellation_base & throw_if_cancelled", "include/boost/cobalt/this_coro.hpp")], [],
 ["cancellation slots of instrumented leaf operations", "this_coro::cancelled / cancellation_state"])

prop("C11", "An awaited operation completes exactly once, whatever the initiation does",
 "Awaiting an asynchronous operation (through op, use_op or a user-defined op) resumes the awaiter exactly once with exactly the completion's arguments, whether it completes inline, later, on another handler or after a move of the handler. "
 "An inline completion never resumes the awaiter from inside the initiation, a dropped handler destroys the awaiting coroutine instead of leaking it, and an initiation that throws propagates its exception to the awaiter.",
 ["schedules", "inputs", "fault_sequences"], "all completion signatures, inline/deferred/posted/dropped/throwing initiations, cancellation at any point",
 "test/op.cpp is not built by the default test run here; handler.cpp tests a few cases",
 ["op.hpp", "detail/handler.hpp", "detail/util.hpp"], [("op::awaitable", "include/boost/cobalt/op.hpp"), ("completion_handler", "include/boost/cobalt/detail/handler.hpp")], [],
 ["co_await result", "resumption counters"])

prop("C12", "as_result, as_tuple and throwing awaits agree",
 "For every awaitable of the library, awaiting it plainly, through as_result and through as_tuple reports the same outcome: value for value, and the same error or exception instead of a throw. "
 "Choosing the non-throwing forms never throws for an error the operation reports, never touches a value that does not exist and has the same effect on the operation.",
 ["inputs", "histories"], "every awaitable kind (ops, promises, tasks, generators, channels, race, gather, join, wait_group, with-like combinators), every outcome",
 "the tests use the wrappers for a few outcomes of a few awaitables; the error paths of combinators are never instantiated",
 ["result.hpp", "promise.hpp", "task.hpp", "generator.hpp", "op.hpp", "detail/race.hpp", "detail/gather.hpp", "detail/join.hpp"],
 [("as_result_t / as_tuple_t", "include/boost/cobalt/result.hpp"), ("interpret_as_result", "include/boost/cobalt/detail/handler.hpp")], [],
 ["results of the three forms on identically scripted awaitables"])

prop("C13", "Composed operations complete exactly once with their outcome",
 "A coroutine used as the implementation of an operation (its last parameter being the completion handler) completes it exactly once with exactly the values it returned, on the handler's executor, and never resumes the awaiter from inside the initiation. "
 "Its frame is allocated from the handler's allocator and released before the awaiter resumes, cancelling the awaiter reaches what the coroutine awaits, and abandoning that operation destroys the coroutine and the awaiter.",
 ["inputs", "schedules"], "every signature, body script, nesting, allocator, point of cancellation and abandonment",
 "test/composition.cpp has one body with three tokens",
 ["composition.hpp", "experimental/composition.hpp"] if False else ["composition.hpp"],
 [("composition_promise", "include/boost/cobalt/composition.hpp")], [], ["handler invocations", "allocator balance"])

prop("C14", "spawn, run, thread and main deliver exactly one completion",
 "spawn completes its token exactly once with the task's value or exception, run returns it or throws it synchronously, and a cobalt thread ends after its coroutine with join/await reporting the coroutine's exception or none. "
 "Cancelling through a spawn's slot or a thread's cancel reaches the coroutine, and run and thread leave the calling thread's executor and memory resource as they were.",
 ["schedules", "inputs", "histories"], "all task outcomes and suspension patterns, tokens, cancellation points, nested runs, concurrent threads",
 "test/run.cpp and thread.cpp sample single cases of real threads",
 ["spawn.hpp", "run.hpp", "thread.hpp", "main.hpp", "src/thread.cpp", "src/main.cpp"],
 [("async_initiate_spawn", "include/boost/cobalt/detail/spawn.hpp"), ("run", "include/boost/cobalt/run.hpp"), ("run_thread & thread_state", "src/thread.cpp")], [],
 ["completion handler calls", "return values", "this_thread state"])

prop("C15", "Coroutine memory comes from and returns to its resource exactly",
 "Every coroutine frame and internal allocation is taken from the memory resource or allocator that applies to it and given back exactly once to that same one with the same size and alignment, also when an allocation or a constructor fails at any point. "
 "The library's own memory resources hand out suitably aligned, non-overlapping memory of at least the requested size.",
 ["fault_sequences", "inputs", "programs"], "all programs over the library's coroutine kinds, failure of the n-th allocation, sequences of allocate/deallocate with all sizes and alignments",
 "the unit tests check single allocations of the resources; no test injects allocation failure",
 ["detail/this_thread.hpp", "this_thread.hpp", "detail/monotonic_resource.hpp", "detail/sbo_resource.hpp", "detail/handler.hpp", "detail/fork.hpp"],
 [("promise_memory_resource_base", "include/boost/cobalt/detail/this_thread.hpp"), ("monotonic_resource", "include/boost/cobalt/detail/monotonic_resource.hpp"), ("sbo_resource", "include/boost/cobalt/detail/sbo_resource.hpp")], [],
 ["balance of a checking memory resource"])

prop("C16", "Coroutines stay on their executor",
 "A coroutine has one executor for its lifetime - the one given explicitly through executor_arg or spawn, else its awaiter's (tasks, composed operations) or the thread's - reports it, and continues there after every operation it awaits, whatever executor or thread completes it; spawned tasks start there and complete on the handler's executor. "
 "Executor and memory resource set for a thread are private to that thread, reported back exactly, and the executor is forgotten when its context ends.",
 ["schedules", "configurations"], "all coroutine kinds, executors (io_context, strand, thread pool), and completions from foreign executors and threads",
 "test/strand.cpp samples one strand",
 ["this_thread.hpp", "this_coro.hpp", "detail/this_thread.hpp", "src/this_thread.cpp"],
 [("executor capture", "include/boost/cobalt/detail/this_thread.hpp"), ("handler executor", "include/boost/cobalt/detail/handler.hpp")], [],
 ["running_in_this_thread at every step of the body"])

prop("C17", "Buffer sequences denote exactly the memory they were built from",
 "A buffer sequence denotes, in order, exactly the bytes of the buffers it was built from; its size is their total, and advancing it by n drops exactly the first n bytes and nothing else. "
 "Copies, views, registered buffers and conversions denote the same bytes.",
 ["inputs", "histories"], "all sequences of buffers including empty and many ones, all advances, all construction forms",
 "test/io/buffer.cpp checks a few fixed sequences",
 ["io/buffer.hpp"], [("basic_buffer_sequence", "include/boost/cobalt/io/buffer.hpp")], [], ["iterated regions", "buffer_size"])

prop("C18", "read_all and write_all transfer exactly the requested bytes",
 "read, write and their read_all/write_all and _at variants transfer a contiguous prefix of the requested bytes in order, report exactly the number transferred, and the _all forms stop only when everything was transferred or the stream reports an error, which is then reported with the count so far. "
 "No byte outside the reported prefix is modified, skipped or sent twice, also when cancelled between partial transfers.",
 ["inputs", "fault_sequences", "schedules"], "all splits into partial transfers, errors and end-of-file at any point, buffer sequences of any shape, offsets, cancellation",
 "test/io/ops.cpp runs one or two transfers over pipes",
 ["io/ops.hpp", "io/read.hpp", "io/write.hpp", "src/io/read.cpp", "src/io/write.cpp"],
 [("read_all/write_all loops", "src/io")], [], ["stream contents", "results"])

prop("C19", "Streams, pipes and files behave like the bytes they stand for",
 "Data written to a socket, pipe or file is read back exactly and in order, whatever the sizes, buffer shapes and interleavings; reading past the end or from a closed peer reports end of file (or the corresponding error), never made-up data. "
 "Files report position, size, resize and seek as a byte array model does, and random access never disturbs another offset; closing or cancelling an object completes its pending operations with an error.",
 ["histories", "inputs", "schedules"], "all operation sequences on stream and random access files, pipes, stream, datagram and seq-packet sockets",
 "test/io covers one write/read pair per kind; files are not tested at all",
 ["io/pipe.hpp", "io/stream_file.hpp", "io/random_access_file.hpp", "io/stream_socket.hpp", "io/datagram_socket.hpp", "src/io/file.cpp", "src/io/stream_file.cpp", "src/io/random_access_file.cpp", "src/io/pipe.cpp"],
 [("posix fallbacks for files", "src/io/stream_file.cpp"), ("offset operations", "src/io/random_access_file.cpp")], [], ["bytes read", "results", "reference model"])

prop("C20", "Endpoints and protocols convert without loss",
 "An endpoint made for a protocol from an address, port or path reports exactly that family, type, protocol, address, port and path, has the size the operating system requires, and survives copies and conversions to and from the system's representation; protocols compare equal exactly if all three parts are. "
 "Making one from invalid input reports an error and never an endpoint.",
 ["inputs"], "all protocols, IPv4/IPv6 addresses with scopes and ports, paths of every length",
 "test/io/endpoint.cpp checks one address per family",
 ["io/endpoint.hpp", "src/io/endpoint.cpp"], [("make_endpoint_tag specialisations", "include/boost/cobalt/io/endpoint.hpp")], [], ["round trips", "system calls accepting the endpoint"])

prop("C21", "Timers and sleeps complete when due and only then, or when cancelled",
 "A sleep or timer wait completes without error no earlier than its expiry, at once if it already expired, and with operation_aborted if cancelled or re-armed before; waits complete in order of expiry. "
 "Moving the expiry affects exactly the waits pending on that timer, and signal sets complete once per signal added and none removed.",
 ["schedules", "histories"], "all sequences of reset/wait/cancel/expiry changes over several timers of both clocks, and of add/remove/clear/raise on signal sets",
 "test/io/sleep.cpp waits for three durations",
 ["io/steady_timer.hpp", "io/system_timer.hpp", "io/sleep.hpp", "io/signal_set.hpp", "src/io/steady_timer.cpp", "src/io/system_timer.cpp", "src/io/sleep.cpp", "src/io/signal_set.cpp"],
 [("timer waits", "src/io/steady_timer.cpp"), ("sleep", "src/io/sleep.cpp")], [], ["completion time and error"])

prop("C22", "Stackful functions behave like the coroutines they stand in for",
 "A function run by experimental::make_context as promise, task or generator does what a coroutine of that type with the same body does: it starts, suspends, resumes, yields, receives pushed values, is cancelled and reports its value or exception at the same points and in the same order. "
 "An asio::spawn-ed function awaiting through experimental::await gets the same outcomes as a task would. However such a function ends - returned, thrown, dropped or abandoned at any point - its locals are destroyed exactly once, before its promise, and its stack is freed exactly once and not used afterwards.",
 ["schedules", "histories"], "all trees of stackful and ordinary promises, tasks and generators, all points of completion (at once, immediate, later), cancellation, dropping and abandonment; excluding exceptions of a function whose promise was dropped (nobody receives them)",
 "test/experimental/context.cpp awaits two tasks and a generator that always get awaited before they end",
 ["experimental/context.hpp", "experimental/frame.hpp", "experimental/yield_context.hpp"],
 [("context_frame", "experimental/context.hpp"), ("yield_context_frame", "experimental/yield_context.hpp")], [], ["history of events of the bodies", "stacks in use", "completion of the spawn handler"])

(V / "properties.jsonl").write_text("".join(json.dumps(p) + "\n" for p in P))
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    for f in p["anchors"]["files"]:
        if not (pathlib.Path("/repo") / f).exists(): print(p["id"], "no such file", f)
