# Included by catalog.py: whole workers (harness-b). V8NOTE, EXPL, JSRULE, FC come from catalog_a.py.
WORKER = ["src/worker.rs", "src/execution_context.rs", "src/execution_helpers.rs", "src/pool.rs"]
BNOTE = ("Scenarios run whole workers, as Worker or through the pinned pool, against a recorded outside; time is tokio's virtual time unless said otherwise.")


def work(id, title, statement, over, over_text, why, mechanism, observe, rule, oracle, files, technique=FC, state=()):
    prop(id, title, statement, over, over_text, why, files, mechanism, observe, "b", rule + "; " + JSRULE,
         EXPL + oracle + " " + BNOTE + " " + V8NOTE, js="work.js", technique=technique, state=state)


work("C29", "Timers fire in order, when due, as often as asked, and never once cleared",
    "A timeout calls its function exactly once, an interval again and again, with the arguments given, not before its delay and no later than one millisecond after it while nothing else runs; "
    "of two timers, the one that was started no later with no longer a delay fires first. A cleared timer never fires again, whoever clears it and when, also in its own function. "
    "A function that throws anything ends nothing else, microtasks run before the next timer, ids are fresh positive integers, delays that are no finite number count as 0, and however large ones do no harm and do not pass early.",
    ["histories", "schedules"], "All programs of nested timeouts, intervals, clears, microtasks and exceptions, with delays of every kind.",
    "Tests start a few timers and wait; races of clears with expiries, equal deadlines and odd delays are not tried.",
    [("timers", "setup_timers, run_event_loop, process_callbacks")], ["calls of timer functions in virtual time, with arguments and order"],
    "Non-trivial: at least three timers are started at the top", "A model of pending timers that runs along the trace.",
    ["src/runtime/bindings/timers.rs", "src/runtime/scheduler.rs", "src/event_loop.rs"], technique="model-based property testing (fast-check)")

work("C30", "Each operation reaches the outside once, as asked, and its answer its caller",
    "Each call of fetch or of a binding (assets, storage, KV, database, worker) asks the outside exactly once, for exactly what the script asked (key, value, limits, SQL with typed parameters, URL), and its promise settles with the answer to that very call: values, rows, keys, status, headers and body bytes unchanged, and an error as a rejection with its message, "
    "whatever order answers come in and however many calls are under way. Arguments that cannot be sent are refused without asking; no call ever stays pending when its answer has come, and none ends the process.",
    ["inputs", "histories", "schedules"], "All sets of concurrent calls, with delays, errors, streamed answers and values of every JSON shape; and calls with arguments of any kind.",
    "Tests make one call at a time with a plain value; interleaved answers, failures in the middle of a body and odd arguments are not tried.",
    [("operations and callbacks", "bindings, scheduler, callback_handlers")], ["what the outside is asked for; how each promise settles, and when"],
    "Non-trivial: at least three calls (calls), more than one (any arguments)", "A table of questions and answers: the outside records each question, and the script each answer.",
    ["src/runtime/bindings/", "src/runtime/scheduler.rs", "src/runtime/callback_handlers.rs", "src/execution_helpers.rs"])

work("C31", "A handler sees the request exactly as it was sent",
    "The Request that a fetch handler gets has the method, URL, headers and body bytes that the client sent, as text, buffer, chunks, clones or tees, read at once, late or slowly, from a whole body or a stream with any chunk boundaries; "
    "a body stream that fails makes the reading fail with its message, never a shorter body. This holds for every request that a worker serves, whatever earlier ones did with theirs.",
    ["inputs", "schedules"], "All methods, URLs, headers, bodies, ways of reading, stream timings and buffer sizes, as Worker and in the pool, classic and module handlers.",
    "Tests send a short text to a handler that reads it at once.",
    [("request object", "execution_helpers, pump_request_body, streams")], ["what the handler reports of its request"],
    "Non-trivial: a request with a body", "The generated request itself.", ["src/execution_helpers.rs", "src/runtime/streams.rs", "src/worker.rs", "src/execution_context.rs"])

work("C32", "The client gets the response as the handler made it, or learns that it failed",
    "The client of a fetch event gets the status, the headers (Set-Cookie ones apart) and all body bytes, in order, of the Response that the handler gave: from text, any buffer or view, a Blob, a stream of the script's (pulled, pushed or piped), or the body of a fetched response or of the request, forwarded whole, cloned, teed, re-wrapped or after its start was read, "
    "whatever the speed of either side and the size of the buffer between. If the source of the body fails, the client is told: a body is never ended as if it were whole.",
    ["inputs", "schedules", "faults"], "All kinds of bodies, responses, chunkings, delays, clients' speeds and failures of sources.",
    "Tests return short bodies; failing, slow, teed or half-read sources are not tried.",
    [("response stream", "fetch.rs, stream_manager, run_event_loop")], ["status, headers, chunks and the end that the client gets"],
    "Non-trivial: a response with a body", "The generated response itself.", ["src/execution_helpers.rs", "src/runtime/streams.rs", "src/runtime/bindings/fetch.rs", "src/runtime/bindings/web_api.rs", "src/event_loop.rs"])

work("C33", "When a client leaves, the source is told, once and soon, and nothing is lost",
    "When a client goes away, before or while it gets its body, the execution still ends properly: the source stream is cancelled once, soon (within 110 ms in virtual time, whether or not it is about to give a chunk; a pull that gives one just then is told by enqueue() instead), its cancel() is waited for as long as that, and no longer, and it makes no more than one further chunk; a forwarded body is no longer fetched; "
    "what was given to waitUntil is done to its end; the next request on that worker is served. If nobody leaves, nothing is cancelled.",
    ["schedules", "histories"], "All moments at which a client can leave, bodies pulled, pushed, ticked or forwarded, delays of the source and speeds of the client.",
    "Tests have clients that stay, or one that leaves at once.",
    [("disconnection", "run_event_loop, StreamManager")], ["calls of cancel(), chunks made, end of the execution, in virtual time"],
    "Non-trivial: a body of at least one chunk", "Rules on the trace.", ["src/event_loop.rs", "src/runtime/stream_manager.rs", "src/runtime/bindings/web_api.rs"])

work("C34", "Every fetch event gets exactly one answer, whatever its handler does or throws",
    "A fetch event is answered once: with the Response that its handler gives, at once, in time, by a promise, a thenable or a subclass; and with an error response of status 500 if the handler throws or rejects with any value at all, gives something that is no Response, or one whose body was used or is locked, or if the worker has no handler. "
    "What the handler does after its answer, further answers, and rejections that nobody handles change nothing, the execution ends properly, and the next request is served.",
    ["inputs", "histories", "faults"], "All ways of answering, all kinds of thrown and given values, and events in any order on one worker.",
    "Tests answer with a plain Response or throw an Error.",
    [("answer of a fetch event", "trigger_fetch_handler, respondWith, event loop")], ["the response that each client gets, the end of each execution"],
    "Non-trivial: every case", "A table of what each way of answering must give; classic handlers that never answer are not covered (limits, C40).",
    ["src/execution_helpers.rs", "src/runtime/bindings/web_api.rs", "src/event_loop.rs", "src/worker.rs"])

work("C35", "What is given to waitUntil is done to its end, and delays no response",
    "Everything that a handler gives to waitUntil is run to its end before the execution ends, and no longer: promises, thenables, fetches and streams, also what is given while earlier things are still under way, whatever of it fails and in which order, and whatever the handler's own outcome. "
    "It delays neither the response nor the result of a task, a failure of it changes neither, and an execution without it does not wait.",
    ["histories", "schedules"], "All trees of things given at the start or at the end of others, their durations and failures, in fetch, task and scheduled handlers.",
    "Tests give one promise that is fulfilled.",
    [("waitUntil", "event loop, drain_waituntil")], ["begin and end of each thing, of the response and of the execution, in virtual time"],
    "Non-trivial: at least two things given", "The times at which each thing must be done.",
    ["src/execution_helpers.rs", "src/event_loop.rs", "src/worker.rs", "src/execution_context.rs"])

work("C36", "A task reaches its handler as it was sent, and its result the sender",
    "A task or scheduled handler sees the id, payload, source, attempt and scheduled time that were sent, and its sender gets exactly one result: success and the data that the handler returned or responded with, unchanged, or failure with the message of what it threw or rejected with, whatever value that is. "
    "A worker without a handler for it reports a failure, and the next task is served. So it is in a Worker, in the pool, and for a task that is run once on an isolate that is lent (of it, what needs no I/O), where none sees the globals of the one before.",
    ["inputs", "histories"], "All JSON payloads and results, sources, ways of answering and of failing, with classic and module handlers and those for schedules.",
    "Tests send a small object and return a small object.",
    [("task event", "trigger_task_handler")], ["what the handler saw; the result that the sender gets"],
    "Non-trivial: a payload or data", "The generated task and result; results that JSON cannot hold are outside.",
    ["src/execution_helpers.rs", "src/worker.rs", "src/execution_context.rs", "src/event_loop.rs"])

work("C37", "WebSocket messages arrive whole, once and in order, and each socket closes once",
    "A WebSocket made by its constructor or by fetch asks for one connection, with its URL and protocols; what either side sends, text or bytes of any kind, arrives once, unchanged and in order, to all listeners that are there, however they throw; "
    "its states go from connecting to open to closed, messages before accept() wait for it, and it ends with one close event with the right code, reason and cleanness, or with one error event first if it could not connect or was lost. Arguments that the standard refuses are refused, and nothing is sent for them.",
    ["histories", "schedules", "faults"], "All interleavings of messages of both sides, delays, closes by either side, failures and listeners, of up to three sockets.",
    "Tests connect once and echo one message.",
    [("WebSocket", "websocket bindings, scheduler, callback_handlers")], ["calls of listeners with their data and the state; what the outside gets"],
    "Non-trivial: at least one message", "A model of a socket that runs along the trace.",
    ["src/runtime/bindings/websocket.rs", "src/runtime/bindings/web_api.rs", "src/runtime/scheduler.rs", "src/runtime/callback_handlers.rs"], technique="model-based property testing (fast-check)")

work("C38", "What one request leaves behind does not reach the next ones of its worker",
    "When a worker serves several events, one after the other, each is answered from its own request body, its own operations and its own timers, though earlier ones left fetches, half-read bodies, bindings, timers, sockets, streams and promises behind that end later or never: "
    "no answer goes to another call, no timer of an ended request runs on in a cached context, each event gets its own result and its own wait list, and none of them is delayed or ended by what others left.",
    ["histories", "schedules"], "All sequences of fetch and task events, of what they leave and of what they need, with any delays, as Worker and in the pool.",
    "Tests send requests that leave nothing.",
    [("reuse of contexts", "ExecutionContext::reset, Worker, pool")], ["answers of every request with the data of its own operations, ticks of timers"],
    "Non-trivial: something is left behind, and a request follows", "The answers that carry the number of their request and operation.",
    ["src/execution_context.rs", "src/worker.rs", "src/pool.rs", "src/event_loop.rs", "src/runtime/scheduler.rs"])

work("C39", "The pool gives each request its own worker, keeps its limits, and loses no slot",
    "In the isolate pool each request runs exactly once, with the script of its worker, version and environment; contexts are shared only between requests of the same owner, worker, version and environment, one after the other, never concurrently, and not after a failure. "
    "A request is refused, at once and without running, exactly if its owner already has as many under way as it may; requests that fail, are given up or whose clients leave give their slots back, and when all is over none is in use, and no more isolates are left than configured.",
    ["histories", "schedules", "faults"], "All mixtures of concurrent requests of several owners, workers, versions and environments, with failures, streams, tasks and abandoned requests, under several pool configurations.",
    "Tests of the pool acquire and release by hand, and run one request after another.",
    [("isolate pool", "pool.rs execute_pinned, LocalPool")], ["runs, environments and histories of contexts; results; statistics of the pool"],
    "Non-trivial: two requests of one owner overlap", "A model of who runs when, from the trace.",
    ["src/pool.rs", "src/execution_context.rs", "src/locker_managed_isolate.rs"], technique="model-based property testing (fast-check)")

work("C40", "Limits end what goes on too long, with the right reason, and nothing else",
    "An execution that spins or waits beyond its wall-clock limit, or computes beyond its CPU limit, ends soon after it (in seconds at most, also if the script catches everything), with the reason of that limit: at the top level of a script, in a handler, a promise callback, a timer, a body stream, waitUntil, a task or a scheduled handler. "
    "Its client does not wait for ever and is never told that a cut body is whole; the next request is served. What stays below its limits is not ended, however long it waits under a CPU limit. A Worker that was aborted runs nothing more, and says so.",
    ["schedules", "faults"], "All places where a script can spin or wait, both limits, classic and module handlers, as Worker and in the pool.",
    "Tests have one endless loop for each limit, in the handler itself.",
    [("watchdogs and termination", "timeout_guard, cpu_enforcer, worker.rs, execution_context.rs")], ["the result of the execution and its time; what the client gets"],
    "Non-trivial: every case", "The limits, in real time, with margins of seconds.",
    ["src/worker.rs", "src/execution_context.rs", "src/security/timeout_guard.rs", "src/security/cpu_enforcer.rs", "src/event_loop.rs"])

work("C41", "env holds exactly the variables and bindings that the worker was given",
    "In every handler and at the top level, env has exactly the variables and bindings of its worker, whatever their names and values are, each variable with its exact text, a binding in place of a variable of the same name, with the operations of its kind; it cannot be changed, and no other worker's values appear in it. "
    "An operation of a binding reaches the outside of its own worker under its own name.",
    ["inputs", "histories"], "All names and texts, all kinds of bindings, up to three workers that take turns, scripts that try to change env.",
    "Tests have two plain variables.", [("env", "worker.rs setup_env")], ["what scripts see in env; what the outside is asked for"],
    "Non-trivial: at least two variables or bindings", "The generated environment itself.", ["src/worker.rs", "src/execution_context.rs", "src/runtime/bindings/"])

work("C42", "Every console message arrives once, in order, with its level and text",
    "Each call of a console method reports one message, with the level of the method and its arguments as text, joined by spaces (strings as they are, errors by their stacks, other objects as JSON, all else as String gives it), in the order of the calls, from the top level, handlers, timers, microtasks, streams and waitUntil alike, "
    "also when the worker is ended right after it. No argument makes console throw.",
    ["inputs", "histories"], "All methods, values of every kind, places of calls, and ways for a worker to end.",
    "Tests log one string.", [("console", "console.rs")], ["messages and levels that the outside gets"],
    "Non-trivial: at least three messages", "The same formatting in node.", ["src/runtime/bindings/console.rs", "src/runtime/bindings/mod.rs"])

work("C43", "A code cache bundle returns what was packed, and runs like its source",
    "Packing gives a bundle that unpacks to exactly the source and cache, and is told from other data by its header; unpacking any bytes, cut or changed, gives nothing or what the header says, and never panics. "
    "A script that is run from its bundle does the same as from its source: answers, messages, tasks and errors, also with a cache that is empty, of another script or no cache at all; what is no bundle is refused.",
    ["inputs", "faults"], "All sources and bytes, changes of every byte of the header, programs of many kinds of statements, failing ones included.",
    "Tests run one small script from its own cache.", [("code cache", "snapshot.rs pack_code_cache, unpack_code_cache, create_code_cache")], ["unpacked parts; traces of whole workers"],
    "Non-trivial: a changed bundle or a cache; at least two statements", "The wire format that the code documents, and the run from source.", ["src/snapshot.rs", "src/worker.rs", "src/execution_context.rs"],
    technique="differential property testing (fast-check)")

work("C44", "A request does the same alone, together with others, as a Worker or in the pool",
    "What a request does - its operations, messages, response, result, and how long it takes apart from computing - does not depend on the requests that run at the same time on its thread, in the same isolate or in another, nor on whether it is run by a Worker or by the pool. "
    "Limits end only the request that they are for: one that waits is not charged for the CPU time of others, and the end of one does not stop what another one runs.",
    ["schedules", "histories", "faults"], "All sets of concurrent programs of operations, timers, streams, sockets and computing, under several pool configurations, with requests that spin or wait for ever among them.",
    "Tests run one request at a time, or several that do nothing.", [("isolation of concurrent requests", "pool, AsyncWaiter, guards")], ["records of each request, alone and together, with times"],
    "Non-trivial: two requests with operations within 20 ms; each case of limits", "The same request alone, and as a Worker; limits in real time with margins.",
    ["src/pool.rs", "src/execution_context.rs", "src/async_waiter.rs", "src/security/", "src/worker.rs"], technique="differential property testing (fast-check)")

work("C45", "fetch sends what it was given: method, URL, headers and body to the byte",
    "fetch and the fetch of bindings, given a string, URL or Request and options, send exactly the method, URL, headers (from an object, pairs, Map or Headers) and body bytes that the Fetch standard says, options over those of the Request: text, any buffer or view, Blob, URLSearchParams, FormData, streams and other values, as they were at the time of the call, "
    "with the content type that such a body implies unless one is given. A form's parts decode to its entries and cannot be forged by names. A Request whose body was used, or a stream that fails, is refused and nothing sent; a body that is sent is used; the caller's objects stay as they were.",
    ["inputs", "histories"], "All combinations of inputs, options, body kinds and header forms, with later writes to what was given.",
    "Tests send a string or nothing.",
    [("request from JS", "fetch in web_api.rs, bindings")], ["the request that the outside gets"],
    "Non-trivial: a body", "The request that the Fetch standard gives, and a decoder of forms; a FormData in a Request is outside.", ["src/runtime/bindings/web_api.rs", "src/runtime/bindings/fetch.rs"])

work("C46", "What a script does to its globals stays its own, and none has shared memory",
    "Whatever a script does to global objects, prototypes and constructors - replacing, deleting, freezing, redefining built-in ones, those of the runtime and its internals - at its top level, in handlers or later, another worker in the same isolate or thread, created before, meanwhile or afterwards, finds its environment as if it were alone: every object reachable from its globals is as in a fresh worker, and all its operations work. "
    "No worker finds SharedArrayBuffer or Atomics in its globals, and self and global are globalThis.",
    ["histories", "inputs"], "All combinations of changes to some 60 global objects, times, isolates and orders of workers.",
    "Tests have one worker at a time that changes nothing.", [("contexts and bindings", "Runtime::new, ExecutionContext::new_with_pooled_isolate, bindings")], ["all objects reachable from the globals; answers of all kinds of operations"],
    "Non-trivial: every case", "The same worker, alone. SharedArrayBuffer by way of a shared WebAssembly.Memory is outside.", ["src/execution_context.rs", "src/runtime/mod.rs", "src/runtime/bindings/", "src/pool.rs"], technique="differential property testing (fast-check)")

work("C47", "A worker from the runtime snapshot is and does just what it is and does without",
    "create_runtime_snapshot gives a snapshot, whether its process runs from one or not, that every worker - by itself or in the pool - can start from. Such a worker finds the same globals, with the same objects, properties, functions and prototypes, as one that starts without a snapshot; any calls of any methods of the runtime's classes, with any arguments, give the same results, exceptions and logs; "
    "and requests are served in the same way, at first and again, also after the worker changed its own globals. So it is for a task that is run once on an isolate that is lent. An empty snapshot file is as none.",
    ["inputs", "histories"], "All sequences of calls of all methods of all classes of the runtime, by programs in workers from a snapshot and without.",
    "Tests run either from a snapshot or without, as the build left it; none compares.", [("snapshots", "snapshot.rs create_runtime_snapshot, platform.rs get_snapshot, use_snapshot in Runtime::new, LockerManagedIsolate and ExecutionContext")],
    ["all objects reachable from the globals; results of calls; answers and logs"],
    "Non-trivial: changed globals, or more than three calls", "The same worker without a snapshot; the snapshot is made and read by the V8 of node.", ["src/snapshot.rs", "src/platform.rs", "src/runtime/mod.rs", "src/execution_context.rs", "src/locker_managed_isolate.rs", "src/runtime/bindings/"], technique="differential property testing (fast-check)")

work("C48", "The pool keeps what was used last, as much of it as it may, and counts it",
    "Of the isolates of owners the pool keeps those used last, up to its maximum; of the contexts in an isolate those used last, up to their maximum, none if that is 0. A request whose worker, version and environment have a context that is kept gets it, and is told so, unless it was used as often as CONTEXT_MAX_REUSES says; any other gets a new one. "
    "A context whose request was ended by a limit, in its handler, its task or its waitUntil, warm or new, is not kept. Statistics count each request once, as hit or miss, and say at any time what is kept and in use. All this with the simple pool and the multiplexed one.",
    ["histories", "faults"], "All histories of requests of several owners, workers, versions and environments, one after the other, with requests that are ended, under several pool configurations.",
    "Tests of the pool acquire and release isolates by hand; no test has contexts that are kept, since that needs V8.",
    [("isolate pool", "pool.rs LocalPool::acquire, execute_pinned, get_pinned_pool_stats")], ["which requests a context has served; warm hits; statistics of the pool"],
    "Non-trivial: more than five different requests", "A model of the isolates and contexts that are kept.", ["src/pool.rs", "src/execution_context.rs"], technique="model-based property testing (fast-check)")

work("C49", "A limit of memory ends the request that goes beyond it, and only that",
    "ArrayBuffers up to the worker's limit are granted, and what goes beyond is refused by a RangeError; a request that was refused ends with MemoryLimit, whether it catches the error or not, wherever in handlers, timers, streams, waitUntil or tasks it asks. A request whose JS heap grows without end is ended with MemoryLimit, also if it catches everything, and the process goes on. "
    "Its client does not wait for ever and is never told that a cut body is whole; what stays below the limit is not ended, and requests afterwards, of the same worker or of others, are served and end well, and get no more than those before.",
    ["histories", "faults"], "All sequences of requests that ask for buffers within or beyond the limit, one after the other; kinds and places of endless growth.",
    "Tests of the limits need V8 and are not among those that run; they ask once, in one place.",
    [("limits of memory", "CustomAllocator, install_heap_limit_callback, check_termination_reason, execute_pinned")], ["sizes that are granted; results of requests; what clients get"],
    "Non-trivial: a request goes beyond the limit", "A model of the sum of what is granted. Requests that run at the same time in one isolate share its memory, and are outside.", ["src/security/array_buffer_allocator.rs", "src/security/heap_limit.rs", "src/worker.rs", "src/execution_context.rs", "src/pool.rs", "src/locker_managed_isolate.rs", "src/runtime/mod.rs"], technique="model-based property testing (fast-check)")

work("C50", "performance.now is coarse, never goes back, and has its worker's start",
    "Each value of performance.now is a multiple of 0.1 ms and no less than the one before, however and how often it is called, and it is the time since the worker's context was created: of one start for all of its requests, also when a kept context serves again, and of another for each worker. "
    "By it no timer runs early.",
    ["inputs", "histories"], "All sequences of requests and tasks of several workers, by themselves, in the pool or on a lent isolate, with readings at the top level, in handlers, timers, microtasks, waitUntil and hot loops, called in all ways.",
    "Tests call it once; neither how fine it is, nor its start, nor what happens with several contexts, nor the fast path is looked at.",
    [("clock", "web_api.rs performance_now, setup_performance, PerformanceState")], ["values read, between two times of the harness's clock"],
    "Non-trivial: at least two requests", "Intervals: each reading, between two times, narrows when the context was started; one start must fit them all, after the request that created it came and before its first message. In real time.",
    ["src/runtime/bindings/web_api.rs", "src/runtime/mod.rs", "src/worker.rs", "src/execution_context.rs"])
work("C51", "A script that fails to evaluate is refused with its error, and only it",
    "A script that can't be compiled, or whose top level throws, is refused with an exception that names the error: its text where it has one (\"SyntaxError\" if it can't be compiled), as source or as code cache, however it is thrown. "
    "What it had logged comes, its handlers and timers never run, no answer is made up, and nothing is kept: the next request evaluates it again, a repaired version is served, and other workers of the same isolate, pool or thread are served before, meanwhile and after, with their own globals, until no isolate is in use.",
    ["inputs", "histories"], "All histories of requests and tasks for scripts that fail and scripts that don't, by themselves, in the pool or on a lent isolate; all values thrown, all places at the top level, and anything started before.",
    "Tests have one script that throws and look at is_err; neither the text, nor the isolate and its next user, nor the pool are looked at.",
    [("scripts", "runtime/mod.rs evaluate, worker.rs evaluate_in_context, evaluate_code_cache_in_context, create_context, execution_context.rs")], ["results of each request, messages, and the pool's statistics"],
    "Non-trivial: at least two requests, one of a script that fails", "Rules over the trace; the text is String() of what is thrown.",
    ["src/runtime/mod.rs", "src/worker.rs", "src/execution_context.rs", "src/pool.rs"])
work("C52", "What a worker has under way outside ends with it, and nothing else does",
    "When the context of a worker is gone - its worker dropped, its request over and the context not kept, evicted, ended by a limit, or given up - each operation that it has under way outside, of all kinds, answered or not, is given up at that time: fetches and bindings are no longer awaited, WebSockets are closed, a body that is being received is no longer taken after its next chunk (at once for fetch and bindings to workers and assets), and so is the rest of its own request's body; nothing is asked, answered or said afterwards. "
    "Until then nothing is given up, whatever its handler does or throws, and what it waits for comes. What others have under way, in the same isolate or not, is not touched.",
    ["histories", "schedules", "faults"], "All histories of requests and tasks, one after the other or at the same time, that leave any operations under way, answered at any time or never, with bodies that are read, not read or cloned, and end in any way, of several workers and owners, by themselves or under several pool configurations.",
    "Tests with operations wait for their answers; none looks at what the outside is left with.",
    [("ends", "runtime/scheduler.rs run_event_loop, spawn_stream_reader, run_websocket, ClearOnDrop, request_context.rs, worker.rs, pool.rs")], ["operations given up, bodies refused, and sockets closed, with their times, as the outside sees them"],
    "Non-trivial: an operation lasts longer than its request", "Rules over the trace of the outside world, in virtual time. What a context that is kept has under way is judged when it is evicted.",
    ["src/runtime/scheduler.rs", "src/request_context.rs", "src/worker.rs", "src/execution_context.rs", "src/pool.rs", "src/runtime/stream_manager.rs"], technique="property testing of histories (fast-check)")
