"""Property metadata: properties.jsonl and MANIFEST.json are generated from here (python3 tools/meta.py)."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "framework/core/"
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=(), hook=None, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why,
                  files=[C + f for f in files], mech=[{"name": n, "where": C + w} for n, w in mech],
                  technique=technique, note=note, observe=list(observe), hook=hook,
                  state=[{"name": a, "meaning": b, "where": C + c} for a, b, c in state]))


HOOK = "PLAIN_VERIF schedule points (no-ops without the define)"
EXF = ["src/concurrency/executor/thread_pool.cc", "src/concurrency/executor/worker_thread.cc",
       "src/concurrency/executor/thread.cc", "src/concurrency/executor/manual.cc",
       "include/plain/concurrency/executor/basic.h", "src/concurrency/task.cc"]
RSF = ["src/concurrency/result/detail/state.cc", "include/plain/concurrency/result/detail/state.h",
       "include/plain/concurrency/result/promise.h", "include/plain/concurrency/result/basic.h"]
NOTE = ("Holds on every execution observed (thousands of randomised, schedule-perturbed executions per quick run "
        "under ASan/UBSan and TSan); not a proof. Trusts clang's sanitizer runtimes, libstdc++ and the harness oracle.")

prop("P01", "Every accepted task runs exactly once, on the executor it was given to",
     "A task accepted by a running executor (inline, manual, worker thread, thread-per-task, thread pool), alone or in bulk, "
     "is executed exactly once, on a thread of that executor, whichever thread submits it, including worker threads of the same or another executor. "
     "The result handed back completes with exactly that task's return value or exception, all effects of the task are visible to whoever consumes it, "
     "and everything the task captured is destroyed once it is done.",
     "schedules inputs configurations", "all interleavings of submitters and workers, all submission modes, batch sizes and worker counts, idle-worker timeouts included",
     "the unit tests submit a few hundred tasks per executor from one thread with no perturbation; work stealing, donation, worker time-out and cross-pool posting windows are a few instructions wide",
     EXF, [("enqueue/steal/donate between pool workers", "src/concurrency/executor/thread_pool.cc"),
           ("serial worker queue", "src/concurrency/executor/worker_thread.cc"),
           ("submit/post/bulk_* wrapping", "include/plain/concurrency/executor/basic.h")],
     "schedule-perturbed stress under TSan+ASan with exactly-once/placement event reconciliation", NOTE,
     ["task body start", "executor thread start/stop callbacks", "result consumption"], HOOK)
prop("P02", "Serial executors run tasks one at a time in submission order",
     "A worker-thread executor runs its tasks one at a time on one single thread, and tasks of one submitter run in the order in which its submissions were made, "
     "bulk submissions element by element. Tasks submitted by a task running on the executor run in the order they were submitted, after the submitting task.",
     "schedules histories", "all interleavings of any number of submitters, nested submissions and bulk sizes",
     "tests check the order of one submitter; lost order shows only when local and foreign submissions interleave with the queue swap",
     EXF[1:2] + EXF[4:5], [("public/private queue swap", "src/concurrency/executor/worker_thread.cc")],
     "online order/mutual-exclusion monitor over schedule-perturbed stress (TSan+ASan)", NOTE, ["task body start/end"], HOOK)
prop("P03", "Executor shutdown refuses new work, loses no result and leaves nothing running",
     "Once shutdown of an executor has returned no task of it starts any more, and submissions made after that are refused by an error or an interrupted result and never run. "
     "Every result handed out before or during the shutdown completes: with the task's outcome if the task ran, otherwise with an interruption; no waiter is left blocked and no task runs twice. "
     "Shutdown may be called from several threads, repeatedly, and concurrently with submissions, without crash, deadlock, data race or leak of captured state.",
     "schedules histories fault_sequences", "all interleavings of shutdown with submissions, nested submissions, idle time-outs and further shutdowns, on each executor kind",
     "tests shut executors down from one thread at a quiet moment; the races need shutdown to fall inside enqueue, donation or idle time-out",
     EXF, [("abort flags and drain", "src/concurrency/executor/thread_pool.cc"), ("abort and queue drop", "src/concurrency/executor/worker_thread.cc"),
           ("in-flight thread list", "src/concurrency/executor/thread.cc")],
     "shutdown fault injection at schedule points, completion/late-run/leak monitors (TSan+ASan)", NOTE, ["task body start", "result completion", "shutdown return"], HOOK)
prop("P04", "The manual executor runs tasks only when asked, and its counts are exact",
     "A manual executor runs tasks only inside its loop calls, in first-in-first-out order, never more than the call's limit, and each loop, clear, size and wait call returns exactly the number of tasks it executed, discarded, holds or waited for. "
     "Timed calls neither give up before their time nor go on after it, waits wake when enough tasks are there or the executor is shut down, and with several threads posting, looping and clearing every posted task is either executed once or counted as cleared.",
     "schedules histories", "all call histories and interleavings of posting, looping, waiting, clearing and shutting down threads",
     "tests call each method in isolation with fixed counts",
     ["src/concurrency/executor/manual.cc", "include/plain/concurrency/executor/manual.h"],
     [("loop_impl/wait/clear", "src/concurrency/executor/manual.cc")],
     "step-by-step reference-model comparison and concurrent conservation accounting (TSan+ASan)", NOTE, ["return values", "task body start"], HOOK)
prop("P05", "A result delivers its single outcome exactly once, to whichever consumer waits",
     "An asynchronous result completes exactly once, with the value, reference or exception its producer set, or with an interruption error if the producer was dropped; a second outcome is refused. "
     "Whatever way it is consumed (blocking get or wait, timed wait, await, resolve, chaining, after moves) and however consumption races with completion, the consumer sees that outcome, resumes exactly once, sees all effects made before completion, never resumes or reports ready early, and never hangs. "
     "A timed wait reports not-ready only after its time is over, and a consumed or moved-from result is empty and says so by an error.",
     "schedules inputs histories", "all interleavings of producer and consumer, all payload kinds and consumption styles",
     "tests complete results before or long after consumption; the compare-exchange hand-over windows are not exercised",
     RSF, [("producer/consumer status hand-over", "src/concurrency/result/detail/state.cc"), ("promise destruction as interruption", "include/plain/concurrency/result/promise.h")],
     "racing producer/consumer stress with outcome-token monitor (TSan+ASan)", NOTE, ["value consumed", "resumption count"], HOOK)
prop("P06", "Every copy of a shared result sees the one same outcome",
     "All consumers of copies of a shared result, waiting in any way and from any thread before, during or after completion, see the same single outcome and the same value object, each exactly once per wait. "
     "Copies may be created, moved and dropped at any time, also while the result completes, without hang, data race or use of freed memory.",
     "schedules histories", "all interleavings of completion with registration, waiting and dropping of copies",
     "tests use a handful of consumers started before completion",
     ["src/concurrency/result/detail/shared_state.cc", "include/plain/concurrency/result/detail/shared_state.h", "include/plain/concurrency/result/shared.h"],
     [("awaiter list and completion publication", "src/concurrency/result/detail/shared_state.cc")],
     "racing consumers/droppers with outcome accounting (TSan+ASan)", NOTE, ["value consumed", "resumption count"], HOOK)
prop("P07", "Waiting for all or any of a set of results is exact",
     "Waiting for all results of a set resumes only when every one of them has completed and hands all of them back in order; waiting for any resumes once at least one has completed, names a completed one, and hands every result back consumable with its own outcome. "
     "Either resumes exactly once, on the executor asked for, whatever the completion order and even if results complete while the wait is being set up.",
     "schedules inputs", "all set sizes, completion orders and interleavings with registration",
     "tests complete results before the call or one by one after it",
     ["include/plain/concurrency/result/when.h", "src/concurrency/result/detail/consumer_context.cc"] + RSF[:2],
     [("when_any registration and rewind", "include/plain/concurrency/result/when.h"), ("status hand-over", "src/concurrency/result/detail/state.cc")],
     "racing completions with index/readiness/resume monitors (TSan+ASan)", NOTE, ["index returned", "resume executor", "outcomes of the returned results"], HOOK)
prop("P08", "Lazy results start once on demand; generators yield exactly their sequence",
     "A lazy result does not start before it is awaited, resolved or run, then runs exactly once and delivers its value or exception; dropped unstarted it never runs. "
     "A generator yields exactly its body's sequence in order, by reference to the yielded objects, surfaces the body's exception at the point it was thrown, and dropping either at any point destroys everything held by its frame exactly once.",
     "programs inputs schedules", "all bodies, nesting depths, consumption styles and abandonment points",
     "tests use one or two fixed bodies consumed to the end",
     ["include/plain/concurrency/result/lazy.h", "include/plain/concurrency/result/detail/lazy_state.h", "include/plain/concurrency/result/generator.h", "include/plain/concurrency/result/detail/generator_state.h"],
     [("lazy continuation hand-over", "include/plain/concurrency/result/detail/lazy_state.h"), ("iterator/state", "include/plain/concurrency/result/detail/generator_state.h")],
     "counted coroutine bodies and frames under ASan/TSan", NOTE, ["body starts", "elements yielded", "object lifetimes"], HOOK)
prop("P09", "A coroutine asked to resume on an executor resumes there exactly once",
     "A coroutine that asks to continue on an executor, or that is started on one by an executor argument, continues on a thread of exactly that executor, exactly once per request. "
     "If that executor is or gets shut down the coroutine is resumed with an interruption error instead of being lost, and its result still completes.",
     "schedules histories fault_sequences", "all hop sequences over all executor kinds and interleavings with shutdown",
     "tests hop once or twice on quiet executors",
     ["include/plain/concurrency/result/resume_on.h", "include/plain/concurrency/result/promise.h", "src/concurrency/result/detail/consumer_context.cc", "src/concurrency/task.cc"],
     [("await-via functor", "src/concurrency/result/detail/consumer_context.cc"), ("initial rescheduling", "include/plain/concurrency/result/promise.h")],
     "segment placement monitor with shutdown injection (TSan+ASan)", NOTE, ["thread running each segment"], HOOK)
prop("P10", "Timers fire on time, on their executor, the right number of times",
     "A timer never fires before its due time (later firings of a periodic one not before its period), fires on the executor it was made with, a one-shot timer fires exactly once unless cancelled, whatever later timers are waited for or however long the queue was idle, and timers with increasing due times on a serial executor fire in that order. "
     "A cancelled or destroyed timer handle stops further firings, a delay resumes its coroutine exactly once on its executor and not early, and a callable passed in by the caller is left intact. "
     "Shutting the timer queue or an executor down concurrently with creation, firing and cancellation neither crashes, hangs, nor loses a delay: pending delays end in an interruption and new timers are refused.",
     "schedules histories fault_sequences", "all timer sets, cancellation and shutdown points and interleavings with the timer thread",
     "tests make a few timers, sleep and count; shutdown and cancellation races are not exercised",
     ["src/engine/timer_queue.cc", "src/engine/timer.cc", "include/plain/engine/timer.h", "include/plain/engine/timer_queue.h"],
     [("deadline-ordered set and request queue", "src/engine/timer_queue.cc"), ("fire/cancel", "src/engine/timer.cc")],
     "timer event log checked for earliness, multiplicity, placement, order under shutdown injection (TSan+ASan)", NOTE, ["callback start", "delay resumption"], HOOK)
prop("P11", "Buffered byte streams neither lose, duplicate, reorder nor invent bytes",
     "What is written to a ring buffer or socket stream comes out once, in order and unchanged, through every read, peek, skip, wrap-around, growth and refusal: a write that does not fit takes nothing (or exactly what it reports), a read never returns more than is stored. "
     "Reported sizes always equal the bytes written and not yet read, whatever partial transfers the socket makes, and one producer with one consumer thread needs no locking.",
     "histories inputs schedules fault_sequences", "all operation histories, capacities and short/interrupted socket transfers",
     "tests write and read a few fixed strings without wrap-around under growth or short transfers",
     ["include/plain/basic/ring.h", "src/net/stream/basic.cc", "include/plain/net/stream/basic.h"],
     [("head/tail index arithmetic and growth", "include/plain/basic/ring.h"), ("pull/push socket transfer", "src/net/stream/basic.cc")],
     "queue-model comparison with injected short/again socket transfers, SPSC under TSan, ASan", NOTE, ["bytes in/out", "reported sizes"], None)
NOTEM = ("Holds on every execution observed (randomised, fault-injected executions under ASan+UBSan); not a proof. The net layer is not run "
         "under TSan: it has benign unsynchronised flags of its own. Trusts clang's sanitizer runtimes, libstdc++, the loopback network and the harness oracle.")
NOTES = ("Holds on every execution observed (thousands of randomised inputs per quick run under ASan+UBSan against a reference model); not a proof. "
         "Trusts clang's sanitizer runtimes, libstdc++ and the harness oracle.")
PKF = ["src/net/packet/basic.cc", "include/plain/net/packet/basic.h", "src/net/stream/codec.cc"]
RPF = ["include/plain/net/rpc/packer.h", "include/plain/net/rpc/unpacker.h"]
NTF = ["src/net/connection/basic.cc", "src/net/connection/manager.cc", "src/net/connection/epoll.cc", "src/net/connection/select.cc",
       "src/net/listener.cc", "src/net/connector.cc", "src/net/socket/basic.cc"]
prop("P12", "Decoding yields exactly the packets encoded, however the bytes are cut",
     "A sequence of packets encoded to a byte stream decodes to exactly the same packets, in order, with the same ids, flags and contents, however the bytes are cut into fragments on arrival, with the binary and with the line codec. "
     "An incomplete packet consumes nothing and yields nothing until its rest arrives; a packet over the length limit or malformed is refused, and neither makes the decoder read outside the data.",
     "inputs histories", "all packet sequences, contents, sizes, fragmentations, limits and damaged or overlong tails",
     "tests decode one or two whole packets from a full buffer",
     PKF, [("binary and line encode/decode", "src/net/stream/codec.cc")],
     "reference decoder next to the real one over randomly cut and damaged streams (ASan+UBSan)", NOTES, ["packets decoded", "decoder verdict", "bytes consumed"], None)
prop("P13", "Typed packet contents read back as written and reads stay in bounds",
     "Values of every supported type written to a packet, empty strings, byte blocks and containers included, read back in the same order with the same values, and the stored size is exactly what was written. "
     "Reading or writing respects the packet's readable and writeable flags independently; reading past the end or from arbitrary contents yields defaults, never memory outside the packet.",
     "inputs histories", "all value sequences, flag histories and arbitrary packet contents",
     "tests write a few values and read them back once",
     PKF[:2], [("typed read/write and flags", "include/plain/net/packet/basic.h"), ("string and byte reads", "src/net/packet/basic.cc")],
     "model comparison of random write/read/flag histories and hostile contents (ASan+UBSan)", NOTES, ["values read", "sizes", "flags"], None)
prop("P14", "RPC values survive packing and unpacking unchanged",
     "Any sequence of supported values (integers of every width and sign, floating point, booleans, strings, binary, nested arrays, lists and maps, null) packed and unpacked as the same types yields equal values, bit for bit for floating point, and consumes exactly the bytes they were packed to. "
     "What the target variables held before plays no role.",
     "inputs", "all types, nestings, values including range limits, and message lengths",
     "tests pack a few mid-range values",
     RPF, [("pack_type/pack_map/pack_array", RPF[0]), ("unpack_type/...", RPF[1])],
     "round trip with exact-extent sentinel over random typed messages (ASan+UBSan)", NOTES, ["values unpacked", "error code", "bytes consumed"], None)
prop("P15", "Unpacking damaged RPC data is refused without harm",
     "Unpacking data that is cut short, damaged, random or of another type than asked for ends with an error or a value of the type asked for, never a crash, a hang or an access outside the data or the target. "
     "It never allocates or produces more elements than the data could encode, and after an error nothing further is decoded.",
     "inputs fault_sequences", "all byte strings and all requested types",
     "tests only unpack what was packed by the same code",
     RPF[1:], [("bounds of every unpack step", RPF[1])],
     "exact-size heap blocks, counting allocators and error monitor over hostile bytes (ASan+UBSan)", NOTES, ["error code", "allocations", "elements"], None)
prop("P16", "Connections deliver packets complete, in order, exactly once",
     "Every packet sent on a live connection, in the format of the net or in one of the connection's own, is dispatched at the other end exactly once, with the same id and content, packets of one sender in sending order, in both directions, however the transport splits, delays or temporarily refuses the bytes and however many connections and senders are busy. "
     "Nothing is delivered to another connection, nothing is left waiting without cause, byte counters equal the traffic, and a net with nothing to do uses no time.",
     "schedules inputs fault_sequences configurations", "all interleavings of senders, workers and network, all fragmentations, partial and would-block transfers, epoll and select",
     "tests exchange a few small packets on an idle loopback",
     NTF + ["src/net/stream/basic.cc"], [("work rotation and output flush", NTF[0]), ("poll loop", NTF[2]), ("wakeup/enqueue", NTF[1])],
     "tagged packet conservation/order monitor over loopback with injected short/EAGAIN/EINTR transfers and schedule perturbation (ASan+UBSan)", NOTEM,
     ["packet dispatched", "stream sizes"], HOOK)
prop("P17", "Each connection starts and ends once, is reported so, and leaves nothing behind",
     "For every accepted or made connection the connect callback comes once, before any of a listener's packets, the disconnect callback, the net's and the connection's own if it has one, exactly once, and after it nothing is dispatched for it, whichever way it ended: closed or reset by the peer, refused data, local shutdown, or the manager stopped. "
     "Packets that arrived before an orderly end are still handled; the slot, socket and count are freed so that new connections, up to the limit and never beyond it, are served as from fresh; a refused or timed-out connect reports failure.",
     "schedules histories fault_sequences", "all histories of connecting and ending, interleavings with traffic, limits and stopping, epoll and select",
     "tests connect a few clients and never end them in the middle of traffic",
     NTF, [("remove/reuse of connections", NTF[1]), ("connection end handling", NTF[0]), ("connect", NTF[5]), ("accept", NTF[4])],
     "callback state machine per connection under hostile clients and schedule perturbation (ASan+UBSan)", NOTEM, ["connect/disconnect callbacks", "packets dispatched", "manager size", "open descriptors"], HOOK)
prop("P18", "Every RPC call ends exactly once, with its own result or an error",
     "A remote call returns the result of the bound function applied to exactly its own arguments, executed once, even with many calls from many threads pending on one connection; an unknown function, one that throws or misses its arguments, a passed time limit or an ended connection yields an error, never another call's result, an endless wait or the end of the process. "
     "Notifications run once without an answer, and wrong, repeated or damaged answers from a peer do no harm.",
     "schedules inputs fault_sequences", "all interleavings of callers, answers, timeouts and connection ends, and all peer behaviours",
     "tests make a few sequential calls to a friendly server",
     ["src/net/rpc/dispatcher.cc", "include/plain/net/rpc/dispatcher.h", "src/net/connection/basic.cc"],
     [("pending call table", "src/net/connection/basic.cc"), ("bind/dispatch", "include/plain/net/rpc/dispatcher.h")],
     "argument-tagged call/answer matching with peer faults and schedule perturbation (ASan+UBSan)", NOTEM, ["results", "bound function executions", "error codes"], HOOK)
NOTET = ("Holds on every execution observed (randomised, schedule-perturbed executions under ASan+UBSan and TSan); not a proof. "
         "Trusts clang's sanitizer runtimes, libstdc++, the file system and the harness oracle.")
prop("P19", "The asynchronous log writes every line once, whole and in order",
     "Every line appended to an asynchronous logger before it is stopped or destroyed is in its log files afterwards exactly once, unbroken, and the lines of one thread in the order it appended them, whichever threads append, whatever the lengths, before start, while it starts, while files roll and while it stops, as long as no more than 25 full buffers (100 MB) wait to be written. "
     "Files are rolled when the configured size is passed and not before, and what was appended reaches the file within the flush interval while the logger runs.",
     "schedules histories inputs", "all interleavings of appenders with the writer thread, start, roll, stop and destruction; all line lengths up to the buffer",
     "tests append a few lines from one thread and look at no file",
     ["src/basic/async_logger.cc", "include/plain/basic/async_logger.h", "include/plain/basic/detail/logger.h", "src/basic/logger.cc"],
     [("double-buffered hand over and stop", "src/basic/async_logger.cc")],
     "self-describing lines read back from the files and reconciled with what each thread appended, stop/roll races injected (ASan+TSan)", NOTET,
     ["lines in the files", "file count"], HOOK)
prop("P20", "A log statement becomes exactly one line with its values, level and place",
     "A log statement at or above the level in force hands exactly one line to the output: its time, thread, level, the rendering of every streamed value in order, then the place of the statement, terminated by one newline, and a statement below the level hands nothing. "
     "Statements of different threads do not mix, a text is never taken for a format string nor read past its end, an over-long line is cut but stays one line, and a fatal statement is put out before the process ends.",
     "inputs schedules", "all values, lengths, levels and interleavings of logging threads",
     "tests print a few literals and check nothing about the line",
     ["src/basic/logger.cc", "include/plain/basic/logger.h", "include/plain/basic/io.h", "src/basic/time.cc", "include/plain/basic/time.h", "src/basic/global.cc"],
     [("stream operators and finish", "src/basic/logger.cc"), ("time formatting", "src/basic/time.cc"), ("printed output", "include/plain/basic/io.h")],
     "reference rendering of every line from several threads, printed output captured (ASan+UBSan, TSan)", NOTET, ["lines at the output", "printed bytes", "exit of a fatal statement"], None)
prop("P21", "An ini file gives back every value as written",
     "Every key of every section of an ini file can be read as string and number exactly as written, however long the lines, values, comments and files are, with comments, blank lines, CRLF, repeated sections and any section order; what is not in the file is reported as absent. "
     "A string is never written past the size given for it, a closed file can be opened again, and arbitrary content is read without harm.",
     "inputs histories", "all file contents, all getters, all buffer sizes, reopened objects",
     "tests read one small file",
     ["src/file/ini.cc", "include/plain/file/ini.h"], [("line and section index", "src/file/ini.cc"), ("value getters", "src/file/ini.cc")],
     "reference parser comparison with exact-size buffers, hostile files (ASan+UBSan)", NOTES, ["values", "section and key lists"], None)
prop("P22", "A table gives back every cell, and finds every record by its key",
     "A tab-separated table opened from file or memory gives back every cell of every record by position and by field name with the type declared, finds records by index and by value, and a table saved as text or as binary reads back the same. "
     "A position or name outside of the table yields nothing, tables of any size work, and damaged content is refused or read without harm.",
     "inputs histories", "all tables, all positions inside and outside, all searched values, damaged content",
     "tests open one small table",
     ["src/file/tab.cc", "include/plain/file/tab.h"], [("text parsing", "src/file/tab.cc"), ("index and search", "src/file/tab.cc"), ("save", "src/file/tab.cc")],
     "reference table comparison, hostile content, large tables (ASan+UBSan)", NOTES, ["cells", "search results", "saved file"], None)
prop("P23", "An address keeps exactly the host and port it was made from",
     "An address made from any written form of an IPv4 or IPv6 host and port, or from socket address bytes, has that family, host, port and those bytes, its text makes an equal address again, and what is no address or has no valid port is refused and leaves no address. "
     "Nothing is read past the end of the text or bytes given.",
     "inputs", "all hosts, ports, written forms and byte strings",
     "tests convert two or three fixed addresses",
     ["src/net/address.cc", "include/plain/net/address.h", "src/net/detail/socket.cc"], [("text parsing", "src/net/address.cc"), ("bytes", "src/net/address.cc")],
     "differential oracle against inet_ntop and sockaddr bytes (ASan+UBSan)", NOTES, ["family", "host", "port", "text", "bytes"], None)
prop("P24", "Text, number and path helpers do what they say for every input",
     "Splitting, replacing, trimming, escaping, case, search, wide conversion, character check, error text, section, size and number helpers, and the path helpers (slashes, directory name, complementing, creating directories) return for every input what their description says, end, and touch nothing outside the buffers given.",
     "inputs", "all strings, masks, separators, buffer sizes and paths",
     "tests use a few short literals",
     ["src/basic/utility.cc", "include/plain/basic/utility.h", "src/file/utility.cc"], [("string helpers", "src/basic/utility.cc"), ("templates", "include/plain/basic/utility.h")],
     "reference function comparison over random exact-size inputs (ASan+UBSan)", NOTES, ["return values", "output buffers", "directories made"], None)
prop("P25", "Encodings and byte streams are exact and reversible",
     "Base64, hex and byte-order conversions of any bytes give the standard form and come back to the same bytes, MD5 is the standard digest however the input is split, and every value written to a byte stream is read back equal and nothing beyond it; a password that is not refused, and any text with its number, are decrypted to the same from what they were encrypted to. "
     "Damaged or lying input is refused or ends within its bounds.",
     "inputs", "all byte strings, splits, value sequences and damaged inputs",
     "tests encode one or two literals",
     ["src/basic/base64.cc", "src/basic/md5.cc", "include/plain/basic/md5.h", "include/plain/basic/endian.h", "include/plain/basic/stringstream.h", "src/basic/utility.cc"],
     [("base64", "src/basic/base64.cc"), ("md5", "src/basic/md5.cc"), ("byte order", "include/plain/basic/endian.h"), ("block stream", "include/plain/basic/stringstream.h")],
     "independent reference encoders, round trips, damaged input (ASan+UBSan)", NOTES, ["encoded bytes", "decoded bytes", "digests"], None)
prop("P26", "A variable keeps its value, compares and calculates like it, from any thread",
     "A variable made from a value of any supported type gives back that value, its text and number, copies and moves keep it, variables of one type are ordered as their values are, and arithmetic, increments and decrements give the arithmetic result. "
     "Threads that change and read one variable at the same time lose no update and see no torn value.",
     "inputs schedules", "all types, values, operation sequences and interleavings of threads on one variable",
     "tests compare a few literals on one thread",
     ["src/basic/type/variable.cc", "include/plain/basic/type/variable.h"], [("conversion and operators", "src/basic/type/variable.cc")],
     "reference value comparison (ASan+UBSan) and shared-variable stress (TSan)", NOTET, ["values", "texts", "comparison results"], None)
POF = ["include/plain/sys/memory/pool.h", "include/plain/sys/memory/stack_allocator.h"]
prop("P27", "Memory pool blocks never overlap, keep their content and can be reused",
     "Blocks given out by a memory pool and not yet freed never overlap, are aligned, have the size asked for and keep their content, whichever threads allocate, hand over and free them, and when all are freed the whole capacity can be given out again. "
     "Freeing what is not a block of the pool and accesses outside of a block are detected, impossible sizes are refused, and containers over pool allocators and the stack behave as over the standard allocator.",
     "schedules inputs histories", "all interleavings of allocating and freeing threads, all sizes, pool shapes and orders of freeing",
     "tests allocate a few blocks; a leaf reused too early needs frees and allocations to interleave",
     POF, [("leaf offset and reset", POF[0]), ("header checks", POF[0]), ("allocator adaptor", POF[0]), ("stack", POF[1])],
     "live-block overlap map and content patterns under multi-threaded stress (ASan+TSan), fill/empty capacity accounting", NOTET, ["blocks given out", "block content", "refusals"], HOOK)
prop("P28", "System thread pool, task queue and threads run each function as often as asked",
     "Every function enqueued in the system thread pool or task queue runs exactly once with its own arguments, its result or exception is delivered by its future, also when the pool or queue is destroyed with functions still queued; at most the given number run at once, none stays idle while one is queued, and the queue runs them in order. "
     "A thread made by the thread helper calls its function again exactly as long as it returns true and it is not told to stop, which it can be as soon as it is made.",
     "schedules histories", "all interleavings of feeders, workers and destruction",
     "tests enqueue a handful of functions and wait for them",
     ["src/sys/thread.cc", "include/plain/sys/thread.h", "include/plain/basic/task_queue.h"],
     [("worker loop and destruction", "src/sys/thread.cc"), ("queue", "include/plain/basic/task_queue.h"), ("repeating thread", "include/plain/sys/thread.h")],
     "numbered task accounting under stress with destruction injected (ASan+TSan)", NOTET, ["function runs", "futures"], HOOK)
prop("P29", "The console answers each command, in order, by the handler in force",
     "Each line sent to the engine's console is split into command and arguments and answered in order by the handler registered for it at that time, however the bytes are cut and however many clients talk while handlers are registered and replaced; an unknown command ends that client's connection and no other. "
     "The built-in commands list exactly the nets that run with their connection counts, stop exactly the nets named, and describe the commands; a console that cannot listen is reported and can be enabled again.",
     "schedules inputs histories", "all command sequences, fragmentations, clients and registrations at the same time",
     "there is no test of the console",
     ["src/engine/kernel.cc", "include/plain/engine/kernel.h", "src/net/stream/codec.cc"], [("console dispatcher and commands", "src/engine/kernel.cc")],
     "conversation oracle over loopback clients with handler replacement and net kills (ASan+UBSan)", NOTEM, ["answers", "handler runs", "state of the nets"], HOOK)
prop("P30", "The engine honours its options, ends cleanly and keeps net names unique",
     "An engine has executors and a timer queue with exactly the limits its options give, reports each of their threads started and ended to the callbacks given, runs each function given to it once with its own result, and its threads until they or it end. "
     "After its destruction every executor made by it, also by its tasks while it ends, and its timer queue are shut down, refuse work and run nothing, whether it was idle or busy; of nets that start with one name at most one runs at a time, unnamed nets all run, and the name is free again when it stopped.",
     "schedules configurations histories", "all options, uses before destruction, and interleavings of starting and stopping nets",
     "tests use the default engine and never end it",
     ["src/engine/kernel.cc", "include/plain/engine/kernel.h", "src/net/connection/manager.cc"], [("executor collection", "src/engine/kernel.cc"), ("net registry", "src/engine/kernel.cc")],
     "option, life-cycle and registry monitors over random engines (ASan+UBSan, TSan)", NOTET, ["limits", "thread callbacks", "runs after the end", "net starts"], None)
prop("P31", "A kept connection can be connected again, as often as wanted, from fresh",
     "A connection kept alive keeps its id, place and settings when it ends; connecting it again, to its last or a given address, succeeds if the peer accepts and then serves packets both ways as from fresh, as often as wanted, with one connect and one disconnect callback each time. "
     "A failed attempt reports failure and can be repeated; given up, its place is free for others.",
     "schedules histories", "all sequences of ends, failed and successful reconnections, with the traffic and executors of any connection at the same time",
     "tests never connect a kept connection again",
     ["src/net/connector.cc", "src/net/connection/basic.cc", "src/net/connection/manager.cc"],
     [("reconnect", "src/net/connector.cc"), ("reset of a used connection", "src/net/connection/basic.cc"), ("kept place", "src/net/connection/manager.cc")],
     "per-connection life-cycle monitor over loopback with peers that end, refuse and come back (ASan+UBSan, TSan)", NOTET, ["connects again", "packets served", "callbacks", "places"], HOOK)
prop("P32", "Sockets connect, report and carry what the system does, and own their descriptor",
     "Connecting succeeds exactly if the peer accepts within the time limit, whatever the number of the descriptor and whatever signals come, and leaves the blocking mode as it was; a failure never comes before the limit for want of an answer and is reported with its own code and message, to the thread it happened in. "
     "Addresses, options and available bytes are those of the system, data comes whole, in order and to the end, and each descriptor is closed exactly once by its owner and never another's. "
     "A select net refuses descriptors it has no room for and serves the others; a listen or connect that fails says why and can be tried again.",
     "schedules inputs fault_sequences histories", "all peers, descriptor numbers, signals, operation sequences and threads",
     "tests connect to nobody and never look at descriptors",
     ["src/net/socket/api.cc", "src/net/socket/basic.cc", "src/net/connection/select.cc"],
     [("connect", "src/net/socket/api.cc"), ("socket object", "src/net/socket/basic.cc"), ("sets of descriptors", "src/net/connection/select.cc")],
     "system-state oracle (sockaddr, options, /proc descriptors by inode), byte model and error monitor under hostile peers and signals (ASan+UBSan, TSan)", NOTET, ["connects", "open descriptors", "bytes", "errors"], None)
prop("P33", "A task runs or drops its callable exactly once, wherever it was moved",
     "A task holds any callable (small or big, aligned in any way, move-only or copyable, a function, a coroutine) through every sequence of moving, replacing, clearing and running: the callable is run at most once, with the arguments bound to it, at an address its alignment asks for, and is destroyed exactly once whether it was run, threw, was replaced or never ran. "
     "A coroutine held by a task is resumed by running it and destroyed by dropping it, never both. "
     "Executors, posted functions with arguments and shut down queues keep to the same.",
     "programs schedules", "all callables, all programs over tasks and executors, all schedules of workers",
     "tests run a few small functions and never count lives, throw from tasks or look at alignment",
     ["include/plain/concurrency/task.h", "include/plain/concurrency/executor/basic.h", "src/concurrency/executor/thread_pool.cc"],
     [("task vtable and inline buffer", "include/plain/concurrency/task.h"), ("post with arguments", "include/plain/concurrency/executor/basic.h")],
     "life and run counting oracle over random programs of tasks and executors (ASan+UBSan+LSan, TSan)", NOTET, ["lives of callables", "runs", "addresses", "values"], None)
prop("P34", "Plugins are found, loaded, resolved and unloaded as asked",
     "A library name is found with or without prefix and suffix in the directory asked for, in the documented order, and the file mapped is that one; what is not there or is no library fails with an error and leaves nothing loaded. "
     "Symbols resolve to those of the library, and a library is unloaded when it is told to, or destroyed, as often as it was loaded and not more. "
     "The library manager takes the first of the names there is, calls its opening function, and forgets removed names and paths.",
     "histories inputs", "all file layouts and all sequences of naming, loading, resolving, removing and unloading",
     "tests load no plugin at all",
     ["src/file/library.cc", "include/plain/file/library.h"],
     [("names, dlopen and manager", "src/file/library.cc")],
     "model of the search and of loads over generated plugin directories, compared with the process's mappings (ASan+UBSan+LSan)", NOTE, ["mapped files", "symbols", "errors", "opening calls"], None)
prop("P35", "Script environments keep their own id and life",
     "Each environment made by a script factory, by pointer or by type, has an id no other living environment has, from whatever threads they are made. "
     "Getting an id gives that environment and no other until it is closed; closing ends exactly that one, and ids that are not there give nothing.",
     "histories schedules", "all sequences of making, getting and closing, from several threads",
     "tests make no environments", ["include/plain/script/factory.h", "src/script/factory.cc"],
     [("map of environments and new id", "src/script/factory.cc")],
     "map model over random histories and concurrent making with life counting (ASan+UBSan+LSan, TSan)", NOTET, ["ids", "pointers", "lives"], None)
prop("P36", "Process helpers tell what the system does and touch no other process",
     "A pid file gives the id written or none, waiting on it signals only that process and comes back only when it is gone, permitted to signal it or not. "
     "Names keep in their buffers, a command runs whole and gives its first line, usage, host name and core limit are those of the system. "
     "A daemon returns once, in a process of its own session without standard descriptors, or tells that it failed.",
     "inputs fault_sequences histories", "all file contents, sizes, commands, lives of processes and failing calls",
     "tests call none of it", ["src/sys/process.cc", "src/sys/utility.cc", "src/basic/utility.cc"],
     [("process", "src/sys/process.cc"), ("exec and limits", "src/sys/utility.cc")],
     "model of processes behind stand-ins for kill, sleep and fork; comparison with /proc and the system calls (ASan+UBSan)", NOTE, ["signals", "pid files", "buffers", "sessions"], None)
prop("P37", "Calls on descriptors give exactly what the system gives",
     "Opening, reading, writing, moving, telling, duplicating, counting, truncating, closing and switching the blocking of a descriptor do exactly what the system's own calls do, for files and pipes, for every place, length and flag, and touch no byte outside the buffer and no descriptor but the one given. "
     "A failing call says so and leaves the file as it was.",
     "inputs programs histories", "all sequences of calls on files, pipes and closed descriptors",
     "tests call none of it", ["src/file/api.cc", "include/plain/file/api.h"],
     [("descriptor calls", "src/file/api.cc")],
     "random call sequences against a byte model and the system's own view of each descriptor (ASan+UBSan)", NOTE, ["return values", "file contents", "offsets", "descriptor flags"], None)
prop("P38", "Times, globals and single instances are true and one for all threads",
     "Timestamps, formatted times, ticks and nanoseconds agree with the system's clocks between the begin and the end of the call, in the local zone, whichever thread asks, and counted ones never go back. "
     "A global has one place for ever: threads that ask for it at the same time get the same one, a value set is the value got, and updates made safely are not lost. "
     "A single instance is made once, seen whole by every thread that asks, and is the same until the end of the process.",
     "schedules inputs", "all threads asking first at the same time, all names and values, all times and zones",
     "tests ask for each once from one thread", ["src/basic/time.cc", "include/plain/basic/global.h", "src/basic/global.cc", "include/plain/basic/singleton.h"],
     [("formats and ticks", "src/basic/time.cc"), ("map of globals", "src/basic/global.cc"), ("first instance", "include/plain/basic/singleton.h")],
     "clock bracketing and per-name model over racing threads (ASan+UBSan+TSan)", NOTE, ["time values", "global places and values", "instances made"], None)
#MORE


def main():
    ids = [p["id"] for p in P]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            an = {"files": p["files"], "mechanism": p["mech"], "observe_at": p["observe"], "hook_needed": p["hook"]}
            if p["state"]:
                an["state"] = p["state"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["why"], "anchors": an}) + "\n")
    hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif:"], text=True,
                           stdout=subprocess.PIPE).stdout.split()
    man = {
        "version": 1, "setup_cmd": "python3 -m py_compile run.py props.py",
        "hooks": {"guard": "PLAIN_VERIF", "enable": "run.py compiles /repo/framework/core/src with -DPLAIN_VERIF (and the sanitizer flags) into /verif/build",
                  "source_commits": hooks[::-1]},
        "checks": [{"property": p["id"], "quick_cmd": f"python3 run.py {p['id']} quick",
                    "thorough_cmd": f"python3 run.py {p['id']} thorough",
                    "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"],
                    "level": "exploration", "level_note": p["note"]} for p in P],
        "not_applicable": [],
        "notes": "See DESIGN.md. Genuine defects found are fixed in /repo ('fix:' commits) and listed in known-findings.txt.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    try:
        import jsonschema
        jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
        sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for l in open(os.path.join(HERE, "properties.jsonl")):
            jsonschema.validate(json.loads(l), sch)
        print("valid", len(P))
    except ImportError:
        print("written", len(P))


main()
