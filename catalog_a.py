V8NOTE = ("The code under test runs on the V8 inside node, through a shim of the rusty_v8 C interface (there is no "
          "librusty_v8 here); the shim is trusted.")
EXPL = "Generated cases against an explicit oracle; no claim beyond the cases run. "

prop("C01", "Stream chunks arrive in order, once, and bounded, whatever the interleaving",
     "Every chunk that was accepted on a stream is delivered to that stream's reader exactly once, in the order accepted, "
     "and before the end or error that follows it; no stream ever delivers what was written to another one, and stream "
     "ids are never handed out twice. A stream never holds more unread chunks than its high-water mark: a waiting write "
     "goes on as soon as there is room and a non-waiting write is refused exactly when there is none. Once a stream is "
     "closed or the set of streams is cleared, no blocked read or write stays blocked for ever and nothing written "
     "afterwards is delivered.",
     ["histories", "schedules"],
     "All histories of creating, writing (waiting or not), reading, cancelling a write, closing, taking the receiver and "
     "clearing, over any number of streams and any high-water mark, under every polling order, spurious polls included, "
     "and with writers and readers on several threads.",
     "The unit tests write and read a few chunks on one stream in one order; races of read with close, clear and reuse need "
     "particular interleavings.",
     ["src/runtime/stream_manager.rs"],
     [("bounded channel per stream; take, read, put back", "StreamManager::read_chunk"),
      ("unique ids", "StreamManager::create_stream, clear")],
     ["results of reads and writes, wake-ups, active_count, has_sender, get_stream_info"],
     "a", "A history counts as non-trivial when at least 3 writes were started on a stream and at least one read; each "
     "distinct history is counted once.",
     EXPL + "A reference model of queues is compared step by step, over histories whose polling order is generated; the "
     "threads part explores real interleavings by chance.",
     state=[("streams", "senders, receivers and metadata by stream id", "StreamManager")])

prop("C02", "A request body is forwarded whole, in order, and no faster than it is read",
     "A streamed request body reaches its consumer as exactly the chunks the client sent, in order, followed by the end, "
     "or by the client's error if it failed, and never by chunks of another request. The forwarding never takes from the "
     "client more than the high-water mark ahead of what was consumed (plus the chunks in the hands of a pending read or "
     "write). When the consumer closes the body or the request ends, forwarding stops and lets go of the client's channel.",
     ["histories", "schedules"],
     "All histories of several bodies: client sends, client end or error or disappearance, reads, cancellation, close, the end of "
     "the request and its successor, under every polling order.",
     "No test runs the forwarding against a slow consumer or across two requests.",
     ["src/runtime/stream_manager.rs", "src/runtime/streams.rs"],
     [("pump of a body into a stream with a bounded channel", "pump_request_body")],
     ["what reads deliver; capacity left in the client's channel; whether that channel is closed"],
     "a", "A case counts as non-trivial when a body has at least 2 client sends and at least 2 reads; distinct cases only.",
     EXPL + "A reference model of each body is compared after every generated step of an executor whose schedule is generated.")

prop("C03", "Requests sharing an isolate take turns: one at a time, in order, none forgotten",
     "At most one request at a time has the turn on an isolate. Whenever the turn is given up, the request that has waited "
     "longest is woken, and every waiting request gets its turn as long as those before it go on, however often it is "
     "polled for reasons of its own. A request that goes away while waiting does not let the others wait for ever.",
     ["schedules", "histories"],
     "All numbers of requests, turns and polling orders, with spurious polls and requests dropped while not having the turn.",
     "The unit tests take and release the lock with two or three waiters, each polled exactly when woken.",
     ["src/async_waiter.rs"],
     [("queue of wakers; guard that wakes the next one", "AsyncWaiter::try_lock and its guard")],
     ["who has the turn, who is woken, is_free, queue_len"],
     "a", "Non-trivial: at least 3 requests and at least 6 steps; distinct cases only.",
     EXPL + "A model of the queue is compared over generated schedules; the threads part runs real threads.")

prop("C04", "External memory reported to V8 always equals what the live guards hold",
     "At every moment, the external memory reported to an isolate plus what is queued for it equals the sum of the sizes "
     "held by the live guards of that isolate, and what was told to it directly through its lock: through creation, growth, "
     "shrinking, new sizes, tracked values taken out, and drops, in any order and of any size, with or without the isolate "
     "being locked, on its own or another thread. What is "
     "queued is reported when the isolate is next locked, and nothing of one isolate is ever reported to another. When all "
     "guards are gone the isolate counts nothing.",
     ["histories", "schedules"],
     "All histories of guard operations over several isolates with nested and ended locks, and drops on other threads.",
     "The unit tests check single adjustments without an isolate.",
     ["src/gc/external_memory.rs", "src/gc/js_lock.rs"],
     [("guard that reports at once under its isolate's lock and queues otherwise", "ExternalMemoryGuard"),
      ("pending amount drained on lock", "JsLock")],
     ["V8's heap statistics (external memory), the pending amounts, JsLock::try_current"],
     "a", "Non-trivial: at least one lock taken, one guard made and one guard changed or dropped; distinct cases only.",
     EXPL + V8NOTE + " V8's own count of external memory is the observable.")

prop("C05", "Handles dropped outside the lock keep objects alive until processed, then none",
     "An object whose handle was handed over for later destruction stays alive until the queue is processed under the "
     "isolate's lock, and is released by that processing, together with everything queued before it. The reported number of "
     "pending handles equals the handles queued and not yet processed, never underflows, and is zero after everything was "
     "processed. This holds for any number of threads handing over handles while another processes.",
     ["histories", "schedules"],
     "All histories of creating, sharing, handing over and processing handles of all kinds, from several threads.",
     "The unit tests queue nothing real (they have no isolate) or a single handle.",
     ["src/gc/deferred_destruction.rs"],
     [("queue under a mutex with a count", "DeferredDestructionQueue")],
     ["liveness of objects through weak references after a full collection; len, is_empty, has_pending"],
     "a", "Non-trivial: at least one handle made and queued, and one processing; distinct cases only.",
     EXPL + V8NOTE)

prop("C06", "ArrayBuffer memory never exceeds its limit, and is exactly accounted",
     "The ArrayBuffers of an isolate never hold together more than the configured limit: an allocation that would exceed it "
     "fails with a RangeError and sets the memory-limit flag, and one that fits succeeds with a zero-filled buffer of the "
     "length asked for; the flag stays unset while no allocation has failed. Usage is exactly what "
     "the live buffers hold, through slices, transfers, resizes by transfer and garbage collection, and zero when all are "
     "gone. Buffers never overlap or lose their content.",
     ["histories", "inputs"],
     "All limits and all histories of creating, slicing, transferring, dropping and collecting buffers.",
     "One test allocates once above a limit; accounting over a history is not looked at.",
     ["src/security/array_buffer_allocator.rs"],
     [("counting allocator", "CustomAllocator allocate / allocate_uninitialized / free")],
     ["result of each JS allocation, current_usage, the limit flag, buffer contents"],
     "a", "Non-trivial: at least 3 buffers created; distinct cases only.",
     EXPL + V8NOTE)

prop("C07", "Wall-clock guard ends endless JS after its time, and nothing else",
     "JavaScript that is still running when its wall-clock limit has passed is terminated and the guard says so, whatever "
     "the code does, catch and finally blocks included, and never before the limit. Work that ends in time is not "
     "disturbed; once a guard is dropped it terminates nothing any more, and dropping it does not wait for the limit. A limit of zero "
     "means no limit, and guards of different isolates or nested guards do not affect each other.",
     ["schedules", "inputs", "histories"],
     "All sequences of guarded work on several isolates at once, with limits from 1 ms up, endless or quick work, and early drops.",
     "Tests use one limit and one loop; early drops, nesting and concurrency need timing.",
     ["src/security/timeout_guard.rs"],
     [("watchdog thread with a cancel channel", "TimeoutGuard")],
     ["whether the script was terminated, elapsed time, was_triggered, usability of the isolate afterwards"],
     "a", "Non-trivial: at least one operation with endless work; distinct cases only.",
     EXPL + V8NOTE + " Endless work ends by itself after 30 s, which is how a missing termination is seen.")

prop("C08", "CPU guard ends JS by its own CPU time only, for every worker and request",
     "JavaScript that has used its CPU limit is terminated and the guard says so, also when many workers reach their limits "
     "at the same moment and when the limit is the first of the process; never before the limit, and waiting does not count. "
     "A guard that was dropped, or rearmed for the next request, never terminates work because of an earlier limit, and "
     "after rearming the new limit is enforced. A limit of zero means no limit; CPU time is reported exactly and never "
     "goes backwards.",
     ["schedules", "inputs", "histories"],
     "All sequences of limits, work, waits, resets and drops, on up to 48 threads at once, and limits reached at the very moment of a drop or reset.",
     "Tests use one worker and one limit; lost or stale signals need coincidences.",
     ["src/security/cpu_enforcer.rs", "src/security/cpu_timer.rs"],
     [("POSIX timer on thread CPU time; signal thread", "CpuEnforcer"), ("clock_gettime", "CpuTimer, get_thread_cpu_time")],
     ["whether the script was terminated, thread CPU time by the system call, was_terminated, death of the process"],
     "a", "Non-trivial: a case with endless work, or a limit reached around a drop or reset, or several workers; distinct cases only.",
     EXPL + V8NOTE + " 5 ms of slack are allowed for 'not before the limit' (tick of CPU timers).")

prop("C09", "A worker that fills its heap is ended; the process lives on",
     "JavaScript that keeps allocating until its heap limit is terminated with the memory-limit flag set, whatever it "
     "allocates, and the process survives and can go on with other isolates. Work that keeps little, even if it allocates "
     "much in all, is not terminated and does not set the flag.",
     ["inputs", "programs"],
     "All allocation patterns of the generator (arrays, objects, strings, maps, closures, big integers, symbols, properties, growing tables) and limits of 20 to 48 MB.",
     "One test has one pattern; whether the process survives depends on which allocation meets the limit.",
     ["src/security/heap_limit.rs"],
     [("near-heap-limit callback that terminates and gives headroom", "near_heap_limit_callback")],
     ["exit status of a child process, result of the script, the flag"],
     "a", "Non-trivial: a case that fills the heap; distinct cases only. Each runs in a process of its own.",
     EXPL + V8NOTE)


JSRULE = "distinct cases only, by the JSON of the case."
NODE = "The oracle is node's own implementation, given the same input. "
FC = "property-based testing (fast-check)"

prop("C10", "crypto.subtle.digest is the named hash of exactly the bytes given",
     "crypto.subtle.digest resolves to the SHA-1, SHA-256, SHA-384 or SHA-512 digest of exactly the bytes of the buffer or view it was "
     "given when it was called, however the algorithm is spelled (case, string or object), whatever the view's offset and length. "
     "It neither changes its input nor shares memory with it, results of concurrent digests are not mixed up, and data or algorithms it does not support are rejected.",
     ["inputs"], "All byte strings (block boundaries included), views, spellings and numbers of concurrent calls.",
     "Tests digest one short string with two algorithms.",
     ["src/runtime/crypto/digest.rs", "src/v8_helpers.rs"], [("native digest behind a promise", "setup_digest")],
     ["the promise's value or rejection; the input afterwards"],
     "a", "Non-trivial: at least one byte of data; " + JSRULE, EXPL + NODE + V8NOTE, js="crypto.js", technique=FC)

prop("C11", "HMAC signatures are right, and verify accepts the right one only",
     "crypto.subtle.sign with HMAC gives the RFC 2104 code for the key's bytes, hash and the data, and verify is true for exactly that code: "
     "any flipped bit, other length, other data, key or hash makes it false. A key holds the bytes it was imported with, whatever "
     "happens to the caller's buffer later, keys are never mixed up, and only keys imported for HMAC are accepted.",
     ["inputs", "histories"], "All keys, data, views, hashes, sequences of imports and uses, and changes to a signature.",
     "Tests sign one message and verify it; forgeries and reuse of buffers are unbounded.",
     ["src/runtime/crypto/hmac.rs", "src/runtime/crypto/mod.rs"], [("ring HMAC over the key's bytes", "setup_hmac")],
     ["values of sign and verify; fields of the CryptoKey"],
     "a", "Non-trivial: key and data not empty (sign), a changed signature (verify), several keys (keys); " + JSRULE, EXPL + NODE + V8NOTE, js="crypto.js", technique=FC)

prop("C12", "PBKDF2 bits are exactly what the parameters ask for, or refused",
     "crypto.subtle.deriveBits with PBKDF2 resolves to exactly length/8 bytes of the RFC 8018 key for the password, salt, iteration count and hash, "
     "for any password and salt, empty ones and strings included. Parameters it cannot honour (a length that is no positive multiple of 8, "
     "an iteration count that is no positive 32-bit integer, an unknown hash, a key of another kind) are rejected, never rounded or replaced.",
     ["inputs"], "All passwords, salts, iteration counts, hashes and lengths, and malformed parameters.",
     "Tests derive one key; a weaker key from a silently changed parameter looks like any other.",
     ["src/runtime/crypto/pbkdf2.rs"], [("ring PBKDF2", "setup_pbkdf2")],
     ["the promise's value or rejection"],
     "a", "Non-trivial: more than one block or iteration (bits), any malformed parameter (bad); " + JSRULE, EXPL + NODE + V8NOTE, js="crypto.js", technique=FC)

prop("C13", "ECDSA and RSA signatures interoperate, and forgeries are refused",
     "What crypto.subtle signs with ECDSA P-256 or RSASSA-PKCS1-v1_5 is a signature any other implementation accepts for that key, hash and data, and verify "
     "accepts such signatures of others; it refuses every changed signature, other data, key or hash. Keys are accepted in the formats "
     "importKey names, hold the bytes they were imported with, and damaged keys or keys of another kind are refused.",
     ["inputs"], "All data, fresh and fixed key pairs, formats, hashes, damaged keys and changed signatures.",
     "Tests sign and verify one message with the same code, so an error common to both directions is not seen.",
     ["src/runtime/crypto/ecdsa.rs", "src/runtime/crypto/rsa.rs"], [("ring ECDSA", "setup_ecdsa"), ("ring RSA", "setup_rsa")],
     ["values of sign, verify, generateKey and importKey"],
     "a", "Non-trivial: data not empty (own keys), or something changed (imported keys); " + JSRULE, EXPL + NODE + V8NOTE, js="crypto.js", technique=FC)

prop("C14", "Random values fill exactly the view asked for and never repeat",
     "crypto.getRandomValues fills every byte of the integer typed array it is given, and nothing outside of it, returns that array, and refuses anything else. "
     "crypto.randomUUID gives well-formed version 4 UUIDs. No value of 128 bits or more ever comes twice, in one context or across contexts and isolates.",
     ["inputs", "histories"], "All views of all typed arrays, sizes up to 65536 bytes, and sequences of calls in several contexts.",
     "Tests look at one array of 16 bytes.",
     ["src/runtime/crypto/random.rs"], [("system randomness copied into the view", "setup_get_random_values"), ("uuid v4", "setup_random_uuid")],
     ["the array and the bytes around it; the set of all values seen"],
     "a", "Non-trivial: more than 16 elements (fill), every case elsewhere; " + JSRULE, EXPL + V8NOTE + " Randomness is judged by repeats, runs and a chi-square with negligible false-alarm odds.", js="crypto.js", technique=FC)

prop("C15", "TextEncoder gives exactly the UTF-8 of the text, and encodeInto whole characters",
     "TextEncoder.encode gives exactly the UTF-8 of its string in a fresh Uint8Array, every lone surrogate as U+FFFD, however the string came to be. "
     "encodeInto writes the longest prefix of whole characters that fits, nothing beyond it, and says exactly how many UTF-16 units it read and bytes it wrote, "
     "so encoding piece by piece gives the same bytes as encoding at once. Other values are encoded as their strings, and no value as nothing.",
     ["inputs"], "All strings (lone and paired surrogates, all planes, ropes and slices) and all destination sizes and offsets.",
     "No test encodes anything beyond a short Latin text; encodeInto has none.",
     ["src/runtime/text_encoding.rs"], [("native encode", "text_encode"), ("classes", "TEXT_ENCODING_JS")],
     ["the bytes, the counts and the bytes around the destination"],
     "a", "Non-trivial: text with a character beyond ASCII (and that does not fit, for encodeInto); " + JSRULE,
     EXPL + "The oracle is an encoder written from the standard. " + V8NOTE, js="text.js", technique=FC)

prop("C16", "TextDecoder decodes as the Encoding standard says, in one go or in chunks",
     "TextDecoder.decode gives exactly the text the Encoding standard prescribes for the bytes: one U+FFFD per malformed sequence, or a TypeError in fatal mode, and no byte order mark unless ignoreBOM is set. "
     "With the stream option, any division into chunks gives the same text or error as the whole, and what is complete is not held back. "
     "Every label of an encoding is accepted in any case, its name is what encoding says, other labels are RangeErrors, and a decoder can be used again without any trace of earlier calls.",
     ["inputs", "histories"], "All byte strings, well-formed or not, all divisions into chunks, options, views and labels.",
     "Tests decode what the runtime has encoded itself; malformed input and chunk boundaries are not touched.",
     ["src/runtime/text_encoding.rs"], [("encoding_rs behind a class", "text_decode, TEXT_ENCODING_JS")],
     ["the text or error of each call; encoding, fatal, ignoreBOM"],
     "a", "Non-trivial: at least 2 bytes of input; " + JSRULE,
     EXPL + "The oracle is a decoder for UTF-8 and UTF-16 written from the standard; legacy encodings are compared with known characters and with themselves over chunk divisions. " + V8NOTE, js="text.js", technique=FC)

prop("C17", "A ReadableStream delivers every chunk once, in order, and every read settles",
     "Reads of a ReadableStream give every enqueued chunk exactly once and in order, whatever its value, then done after close, or the error: no read stays pending when there is a chunk, an end, an error or a cancellation for it. "
     "A pull source is asked when a read waits, never twice at once and never after the end, and what it throws is the stream's error. "
     "Locking, cancel (once, with its reason, dropping what is queued), the closed promise, desiredSize and the controller's abort signal agree with that state, and enqueue or close after the end are TypeErrors.",
     ["histories", "schedules"],
     "All sources (start, pull: synchronous, promises, deferred, throwing, failing) and all histories of enqueue, close, error, reads, bursts of reads, readers taken and released, and cancels.",
     "Tests read a few chunks with one reader; what goes wrong needs reads that overlap pulls, closes and cancels.",
     ["src/runtime/streams.rs"],
     [("queue in the controller, read requests in the reader", "ReadableStreamDefaultController, ReadableStreamDefaultReader"), ("pull on demand", "_pull")],
     ["state of every read, closed and cancel promise after every step; locked; desiredSize; signal.aborted; calls of pull and cancel"],
     "a", "Non-trivial: at least two read steps and one that gives data; " + JSRULE,
     EXPL + "A model of the stream is compared after every step, with all microtasks run. " + V8NOTE, js="streams.js", technique="model-based property testing (fast-check)",
     state=[("queue, close request, stored error, read requests", "the stream", "ReadableStreamDefaultController")])

prop("C18", "The branches of a tee each give the whole stream, independently",
     "Every branch of a stream split by tee, also of a branch split again, gives all chunks of the stream in order and then its end or error, whatever the other branches read, cancel or do to the bytes they got. "
     "No read of a branch stays pending when the stream has a chunk for it or has ended; the source is asked for no more than the furthest branch has read, "
     "and is cancelled exactly once, when the last branch is. The stream itself stays locked.",
     ["histories", "schedules"],
     "All sources, trees of up to four branches, and histories of reads, bursts of reads, source steps and cancels of branches.",
     "Tests read two branches to the end in turn; a branch ahead of the other, or cancelled, or split again, is not tried.",
     ["src/runtime/streams.rs"], [("shared read for both branches", "ReadableStream.prototype.tee, pullBoth")],
     ["state of every read and cancel of every branch; calls of the source's pull and cancel"],
     "a", "Non-trivial: at least three read steps; " + JSRULE,
     EXPL + "The chunks the source has accepted are the oracle for every branch. " + V8NOTE, js="streams.js", technique="model-based property testing (fast-check)")

prop("C19", "Traced values report exactly the heap they hold, through any nesting",
     "external_memory_size of every type the crate traces or that derives GcTraceable equals the heap memory its tracked parts hold, spare capacity included, through any nesting of vectors, boxes, options, generics and structs; untracked fields count nothing, and shared values count once, for the last owner. "
     "A tracked value reports that size when made and at every update, to V8 as well, and nothing once it is gone or taken out.",
     ["inputs", "histories"],
     "All values of the generated shapes, lengths and capacities, all numbers of other owners, and histories of edits and updates.",
     "Tests compare a few fixed values with numbers written by hand.",
     ["src/gc/traceable.rs", "gc-derive/src/lib.rs", "src/gc/external_memory.rs"],
     [("sizes by type", "GcTraceable"), ("generated sum over tracked fields", "derive_gc_traceable"), ("value with its guard", "Tracked")],
     ["external_memory_size, guard amounts, V8's external memory, bytes held in the process's allocator"],
     "a", "Non-trivial: a value with at least two buffers or owners (sizes), at least two updates (life); distinct cases only.",
     EXPL + "The oracle is a counting allocator, less what is not tracked. " + V8NOTE)
