#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe or [], "hook_needed": None}})

prop("C01", "Executor shutdown waits for every handler and always terminates",
 "Each handler given to the unbounded executor runs exactly once. When StopAndWait or StopAndWaitForever returns although its own context is not done, every handler submitted before the call (and every handler those submitted) has returned. The context handed to handlers is cancelled by, and only by, a stop. Once all handlers have returned (or ended by runtime.Goexit), or the waiting context is done, the waiting call returns within one second. Submitting never waits for handlers, waiting calls or their progress logging, and each progress report names a place that started handlers and the number unfinished there, at least one.",
 ["schedules", "histories"], "every interleaving of Go, Stop, StopAndWait (several waiters), handler completion, nested submission and deadline expiry",
 "the concurrent package has no executor test; elsewhere it is used once, with one handler and no race between submission, completion and waiting",
 ["concurrent/unbounded_executor.go", "concurrent/executor.go"],
 [("counting handlers per start site under a mutex before the goroutine starts", "concurrent/unbounded_executor.go Go"), ("cancel, then poll until all counts are zero", "concurrent/unbounded_executor.go StopAndWait")],
 [("active handler counts", "handlers started and not yet finished", "UnboundedExecutor.activeGoroutines")],
 ["return of StopAndWait/StopAndWaitForever versus return of the handlers"])

prop("C02", "A panicking executor handler is contained, reported once and accounted for",
 "A handler that panics never terminates the process or disturbs other handlers, and it counts as finished for shutdown. Every panic value other than the stop signal is passed to the panic-logging hook exactly once, and that hook has returned before a shutdown that waits for the handler does; the stop signal is never reported. The hook may take its time or use the executor without blocking anyone else.",
 ["schedules", "fault_sequences"], "every mix of normal, panicking and stop-signalling handlers, in every interleaving with shutdown, with the default hook, with the logging library's hook and with user hooks",
 "no test makes an executor handler panic",
 ["concurrent/unbounded_executor.go", "countlog/countlog.go"],
 [("deferred recover around the handler, then decrement", "concurrent/unbounded_executor.go Go"), ("countlog installs itself as the hook", "countlog/countlog.go init")],
 None, ["LogPanic hook calls", "process survival", "StopAndWait"])

prop("C03", "Blocking async writer: lossless, exactly once, in order, intact",
 "Every message whose Write to a blocking-queue async writer returned before Close began reaches the underlying writer exactly once, as one underlying write of the bytes the caller passed (even if the caller reuses its buffer immediately), and in the order of the calls whenever one Write returned before the next began; Write returns len(buf) and no error, and underlying writes never overlap. An underlying write that fails or panics costs only its own message and is reported to the logger-of-the-logger exactly once.",
 ["schedules", "inputs", "configurations", "fault_sequences"], "every interleaving of producers, the writer goroutine and Close; every queue length, message size and pattern of underlying errors and delays (total drain time below the one-second grace)",
 "the async package has no tests at all",
 ["countlog/output/async/async.go", "concurrent/unbounded_executor.go"],
 [("private copy of the buffer sent to a bounded channel", "countlog/output/async/async.go Write"), ("single consumer goroutine", "countlog/output/async/async.go asyncWrite")],
 [("queue", "messages accepted and not yet written", "blockingQueueWriter.queue")],
 ["arguments of the underlying Write", "loglog.Error"])

prop("C04", "Non-blocking async writer never blocks and accounts for every message",
 "Write to a non-blocking async writer always returns without waiting for the underlying writer, with len(buf) and no error. Each message is either written to the underlying writer exactly once, intact and in order, or reported as dropped exactly once with its own bytes, never both and never neither; a drop happens only while the configured number of messages is already queued, and no more than those plus the one being written are ever held. Without a drop callback, the 1st, 1001st, 2001st, ... drop (counted over all callers) and no other is reported as an error naming the running total. An underlying write that fails or panics costs only its own message and is reported once.",
 ["schedules", "inputs", "configurations", "fault_sequences"], "every interleaving of producers with a slow, stalled or failing consumer, every queue length, message counts beyond 1000 drops",
 "the async package has no tests at all",
 ["countlog/output/async/async.go"],
 [("select with default on the queue", "countlog/output/async/async.go Write"), ("drop callback", "countlog/output/async/async.go NewAsyncWriter")],
 [("queue", "messages accepted and not yet written", "nonBlockingQueueWriter.queue")],
 ["underlying writes", "OnMessageDropped", "loglog.Error"])

prop("C05", "Async writer Close drains, closes the sink once and last, and terminates",
 "When Close of an async writer returns, every message accepted before Close began has been written provided the sink needed less than the one-second grace to take them; the sink, if closable, has been closed exactly once, after its last write, and its close error is Close's result; and nothing is written to the sink afterwards. Close returns within the grace, a few sink writes and a few polling intervals even when the sink is slow, failing or panicking.",
 ["schedules", "configurations", "fault_sequences"], "every interleaving of Close with producers and consumer; every queue content and every sink delay and failure pattern",
 "the async package has no tests at all; when to stop draining depends on timing",
 ["countlog/output/async/async.go", "concurrent/unbounded_executor.go"],
 [("stop executor and wait, then close", "countlog/output/async/async.go Close"), ("drain loop with one-second timer", "countlog/output/async/async.go asyncWrite")],
 None, ["sink writes and close relative to the return of Close"])

prop("C06", "Every enabled event yields exactly one intact record in one write",
 "Each logging call at or above the minimum level produces exactly one write to the configured writer, made before the call returns, whose bytes are one complete record carrying that call's own level, event, error and property values and nothing of any other event: text, numbers and nested values of any size and content are rendered without loss (escaped where the format escapes). Calls below the level produce none; call-style and aggregated events without an error count half a level higher. LogPanic records the recovered value and a stack trace the same way and returns the value. The caller's own property slice is never written to. Timers of a disabled level are zero, others the current time. This holds for any number of goroutines logging through shared or distinct sites and event names, including their racing first use, and regardless of what the writer does with time.",
 ["schedules", "inputs", "configurations"], "every interleaving of logging goroutines, every output format, every mix of sites, event names, record sizes and writer delays",
 "countlog tests log from a single goroutine and compare nothing; buffer reuse and handler-cache races need particular interleavings",
 ["countlog/countlog.go", "countlog/context.go", "countlog/root.go", "countlog/output/writer.go", "countlog/output/format.go", "countlog/output/compact/compact.go", "countlog/output/hrf/hrf.go", "countlog/output/json/json.go", "countlog/output/printf/printf.go", "msgfmt/msgfmt.go"],
 [("per-event handler cache", "countlog/countlog.go getHandler/newHandler"), ("pooled buffer formatted and written once", "countlog/output/writer.go writeEvent.Handle"), ("level filter", "countlog/countlog.go")],
 [("handler cache", "event name to compiled handler", "countlog.handlerCache"), ("buffer pool", "recycled format buffers", "output.bufPool")],
 ["writes received by the configured writer"])

prop("C07", "Failures inside logging never reach the application",
 "Whatever the configured writer, the format string, the property values or their String/Error methods do - return errors, write short, or panic - a logging call returns to its caller without panicking and the process survives. (Property values are finite: values containing themselves are out of scope.) Each failed write is reported to the logger-of-the-logger exactly once, an event that cannot be rendered is reported there or recorded in a degraded form, and other events, before, during and after, are still recorded exactly as without the failure.",
 ["fault_sequences", "schedules", "inputs"], "every sequence of writer errors, short writes and panics in writer or property methods, in every interleaving of logging goroutines, and every format text including malformed ones",
 "tests use a healthy standard output and well-formed messages",
 ["countlog/root.go", "countlog/countlog.go", "countlog/output/writer.go", "countlog/loglog/loglog.go", "msgfmt/formatter_invalid.go"],
 [("recover in every root handler; retry via redirector, then fallback", "countlog/root.go"), ("write errors go to loglog", "countlog/output/writer.go")],
 None, ["panics crossing the logging call", "loglog.Error", "records of other events"])

prop("C08", "An event's rendering does not depend on what was logged before",
 "The record written for an event (and the message inside an error returned by a call-style logging function) is determined by that event's own name, level, error, context values and properties: it is the same as if the event were the first one ever logged with that name (its source location is that of a call site that used this name). In particular another site using the same event name with different keys, types, property counts or context values, earlier or concurrently, never changes, garbles or suppresses it.",
 ["histories", "schedules", "inputs"], "every history and interleaving of events that share event names or formats but differ in property shape or context",
 "each test logs a name with one shape; the caches are only ever hit with the shape they were built from",
 ["countlog/countlog.go", "countlog/root.go", "msgfmt/msgfmt.go", "countlog/output/hrf/hrf.go", "countlog/output/compact/compact.go", "countlog/output/json/json.go", "countlog/output/printf/printf.go"],
 [("handler compiled from a site's sample", "countlog/countlog.go newHandler"), ("redirector rebuilding a handler per file and line", "countlog/root.go"), ("formatter cache", "msgfmt/msgfmt.go FormatterOf")],
 [("handler cache", "event name or site to compiled handler", "countlog.handlerCache"), ("formatter cache", "format to compiled formatter", "msgfmt.formatterCache")],
 ["bytes written per event"])

prop("C09", "Counter aggregation conserves events per dimension",
 "For an event aggregated as a counter (agg and dim properties; string dimension values), the values collected for each event name and dimension over all exports up to and including one made after logging stopped add up to exactly the number of events logged with that dimension: none lost, duplicated or credited to another dimension, however logging goroutines and exports interleave. Collected points carry the dimension's names and values as logged.",
 ["schedules", "inputs"], "every interleaving of counting goroutines (more than there are shards, with equal or different shard) with periodic and explicit exports; 0 to 6 dimension keys",
 "the stats package has no tests",
 ["countlog/stats/window.go", "countlog/stats/counter.go", "countlog/stats/state.go", "countlog/stats/stats.go", "gls/goid.go"],
 [("16 mutex-protected shards selected by goroutine id", "countlog/stats/window.go Mutate"), ("export resets counters under the shard lock", "countlog/stats/window.go exportShard")],
 [("shards", "counter per dimension", "Window.shards")],
 ["points passed to the collector"])

prop("C10", "Counters are exported every second until the executor stops",
 "While its executor context is live, an aggregated event's counter is exported about once per second, with the default executor for ever: every counted event reaches the collector within two seconds, in points that name the event and are stamped with the current time. After the context is cancelled the exporter ends promptly and collects at most the export due at that instant; a log call never blocks on a stalled exporter of another event and logging after the stop still works. The number of exporters does not grow with the number of events.",
 ["schedules", "histories"], "every interleaving of logging, timer ticks and cancellation over many simulated seconds",
 "the stats package has no tests, and real time would make them slow",
 ["countlog/stats/window.go", "countlog/stats/async.go", "countlog/stats/stats.go"],
 [("one exporter goroutine per window with a timer", "countlog/stats/window.go exportEverySecond"), ("executor parameter", "countlog/stats/async.go")],
 None, ["collector calls over simulated time"])

prop("C11", "Goroutine-local storage is isolated per goroutine",
 "Get returns exactly the value most recently Set under that key by the same goroutine within its current local-storage scope (or inherited at the scope's creation), and nil otherwise; no other goroutine's Set, scope creation or exit ever changes it. The goroutine id reported to concurrently live goroutines is distinct and stable, and operations on distinct goroutines never crash each other.",
 ["schedules", "histories"], "every interleaving of scope entry, exit, Get, Set and explicit reset/delete by many goroutines whose ids do or do not share a shard",
 "two tests with one goroutine each",
 ["gls/gls.go", "gls/goid.go"],
 [("per-goroutine maps in 16 RWMutex-protected shards keyed by goroutine id", "gls/gls.go")],
 [("global maps", "goroutine id to its storage", "gls.globalMaps")],
 ["results of Get"])

prop("C12", "Goroutine-local scopes inherit a snapshot, nest, and are cleaned up",
 "A function wrapped with inheritance sees, on every invocation, exactly the values its creator had when wrapping (Copy-able values copied), unaffected by later changes of the creator, of other invocations or of siblings; an empty-wrapped function starts empty. When the wrapped function returns or panics the goroutine's storage is exactly what it was before the invocation: disabled if it was disabled, and the caller's own values if the wrapper was called synchronously inside another scope.",
 ["schedules", "histories", "programs"], "every nesting and interleaving of wrapping, invoking (once, repeatedly, concurrently, synchronously inside a scope), mutation and panics",
 "two tests, each invoking a wrapped function once in a fresh goroutine",
 ["gls/gls.go"],
 [("copy of the parent's map at wrap time, reset on entry, cleanup on exit", "gls/gls.go WithGls, WithEmptyGls")],
 None, ["Get and IsGlsEnabled inside, after and around wrapped calls"])

prop("C13", "Rolling file: acknowledged records survive rotation, exactly once, whole",
 "With no retention limit, every Write of the rolling logger (one Logger per file at a time; a new one may take over after Close) that returned success is present exactly once, whole and contiguous, in exactly one of the current file and its backups, however many goroutines write, rotate and close concurrently; nothing else appears in the files. Unless the clock was set back, reading the backups in the order of their names' timestamps (and, within one tick, their numbers) and then the current file gives the records in an order consistent with the calls. An existing log file or backup is never overwritten: the log file is appended to or set aside, and Rotate always sets it aside. The new log file has the permissions and owner of the one set aside.",
 ["schedules", "histories", "configurations"], "every interleaving of writers, Rotate, Close, re-open and background work; every size pattern, file name, directory state, rotations at any rate including within one timestamp tick and after the clock moved back",
 "the package's own tests do not compile at this commit, and even they are sequential with a fake clock that always advances between rotations",
 ["countlog/output/lumberjack/lumberjack.go", "countlog/output/lumberjack/chown_linux.go"],
 [("mutex around write and rotate", "countlog/output/lumberjack/lumberjack.go Write, Rotate"), ("rename to time-stamped backup before creating the new file", "countlog/output/lumberjack/lumberjack.go openNew, backupName"), ("append when the existing file has room", "countlog/output/lumberjack/lumberjack.go openExistingOrNew")],
 [("current file and size", "open handle and bytes in it", "Logger.file, Logger.size")],
 ["directory content after the run"])

prop("C14", "Rolling file: a file-system error costs at most the failed call",
 "When any file-system call fails (open, stat, rename, write, short write, close, chown, mkdir, readdir, remove, disk full), a Write either reports an error or its record is kept; no record acknowledged earlier or later is lost, duplicated or damaged, no error makes the logger panic, block or leave a file open for good, and a write whose error was reported leaves at most a prefix of its own bytes behind, the count it returned. A Rotate that reports no error has set the log file aside. Once the faults stop, writes succeed again at once.",
 ["fault_sequences", "schedules"], "every sequence of failures at every file-system call made by writing, rotating, opening, closing, compressing and cleaning up",
 "tests cannot make individual system calls fail",
 ["countlog/output/lumberjack/lumberjack.go", "countlog/output/lumberjack/chown_linux.go"],
 [("error returns before state changes", "countlog/output/lumberjack/lumberjack.go rotate, openNew, openExistingOrNew"), ("retry of open on next write", "countlog/output/lumberjack/lumberjack.go Write")],
 None, ["results of Write/Rotate/Close versus directory content"])

prop("C15", "Rolling file: a process crash at any instant loses no acknowledged record",
 "If the process dies at any instant - between or inside any file-system calls of writing, rotating, compressing or cleaning up - and is restarted with the same configuration, every record acknowledged before the crash is still present (plain or compressed, unless a retention limit removed it), the record being written is absent, complete or a torn tail, and the restarted logger continues without losing or damaging anything. Left-over partial compressed files never replace the data they were made from.",
 ["crash_points", "histories"], "a crash at every step of every operation, repeatedly, with restart on what was on disk",
 "tests cannot kill the process between two system calls",
 ["countlog/output/lumberjack/lumberjack.go"],
 [("rename before create; remove the source only after the compressed copy is complete", "countlog/output/lumberjack/lumberjack.go openNew, compressLogFile"), ("re-open by append", "countlog/output/lumberjack/lumberjack.go openExistingOrNew")],
 None, ["directory content after crash, restart and further use"])

prop("C16", "Rolling file: no log file exceeds the maximum size",
 "No log file written by the rolling logger is ever larger than MaxSize (default 100 MB) unless it already was, whatever the sizes and concurrency of writes, restarts and rotations; and a write that fits the remaining room of the open file does not rotate. A write longer than the maximum is refused with an error and leaves no trace, and records are only ever added to the file under the configured name.",
 ["schedules", "inputs", "histories", "fault_sequences"], "every sequence and interleaving of write sizes (including exactly at the limit), rotations, closes, restarts on existing files of any size, and short writes",
 "sequential boundary tests that do not compile at this commit",
 ["countlog/output/lumberjack/lumberjack.go"],
 [("size accounting and check before each write", "countlog/output/lumberjack/lumberjack.go Write, openExistingOrNew, max")],
 [("size", "bytes in the current file", "Logger.size")],
 ["file sizes after every file-system operation"])

prop("C17", "Rolling file: retention removes only what the limits allow, and all of that",
 "Cleanup deletes only backups of this logger beyond the newest MaxBackups (a plain and a compressed copy counting once) or older than MaxAge days by the timestamp in their name, which is when they were set aside (UTC, or local time if configured); other files, directories and the current file are never touched, and with both limits zero nothing is deleted. Once a rotation or the opening of the log file is followed by file-system calls that succeed, the surplus backups are gone within bounded time; a backup that cannot be removed does not keep the others.",
 ["schedules", "histories", "configurations", "fault_sequences"], "every interleaving of rotations with the background cleaner, every population of foreign and look-alike files, clock advance and limits",
 "sequential tests that do not compile at this commit and wait in real time",
 ["countlog/output/lumberjack/lumberjack.go"],
 [("background mill goroutine signalled after each rotation", "countlog/output/lumberjack/lumberjack.go mill, millRun"), ("selection by parsed timestamp", "countlog/output/lumberjack/lumberjack.go millRunOnce, oldLogFiles, timeFromName")],
 None, ["directory content and remove calls over simulated time"])

prop("C18", "Rolling file: compression preserves content and never doubles or drops it",
 "With compression on, each backup is eventually replaced by a gzip file that decompresses to exactly the backup's bytes and has its permissions and owner; the plain backup disappears only after a complete compressed copy exists, and the file being written is never compressed. This holds under concurrent rotation and writing and under errors or crashes at any point of the compression, after which a later pass completes it; a backup that cannot be read or compressed does not keep the others from being compressed. Writing, rotating and closing never wait for compression or cleanup.",
 ["schedules", "fault_sequences", "crash_points"], "every interleaving of the compressor with writers and rotations, failures and crashes at each of its file-system calls",
 "sequential tests that do not compile at this commit",
 ["countlog/output/lumberjack/lumberjack.go"],
 [("write gzip, close, then remove source; remove partial output on error", "countlog/output/lumberjack/lumberjack.go compressLogFile")],
 None, ["directory content over simulated time"])

prop("C19", "Message formatting depends only on its arguments, under any concurrency",
 "Sprintf, Fprintf, Fprintln and the formatter they use return or write text that is a function of the format and arguments of that call alone - not of earlier or concurrent calls with the same format and other argument names, positions or types - and Fprintf/Fprintln make exactly one write to the writer they were given, whose buffer is not touched until that write returns. Writer errors and counts are passed through. What a jsonfmt encoder appends is likewise a function of its configuration (unexported fields, extensions), the context and the value.",
 ["schedules", "histories", "inputs", "fault_sequences"], "every history and interleaving of formatting calls sharing formats, caches and pooled buffers, with slow or failing writers",
 "each test uses each format once with one argument type, from one goroutine",
 ["msgfmt/msgfmt.go", "msgfmt/formatter.go", "msgfmt/jsonfmt/encoder.go", "msgfmt/parse.go"],
 [("formatter cache keyed by format", "msgfmt/msgfmt.go FormatterOf"), ("buffer pool", "msgfmt/msgfmt.go fprintf"), ("encoder cache keyed by type", "msgfmt/jsonfmt/encoder.go")],
 None, ["returned strings and writes"])

prop("C20", "Streamed parsing is independent of how the reader delivers the bytes",
 "A source backed by a reader yields exactly the bytes the reader delivered, in order, whatever the chunking, the buffer size, empty reads, or data returned together with an error: every read, skip, peek and consume operation gives the same result as on a string with the same content, and peeking changes nothing. A number that does not fit its type, or a byte other than the one to be consumed, is an error, never another value; expressions parsed from a reader give the value parsed from the string. The first error reported stays. End of input or a reader error is reported through the source's error after all data delivered before it has been consumed, and every operation terminates.",
 ["inputs", "fault_sequences"], "every split of the input into reads (including (0,nil) and (n,err) returns), every buffer size, and a reader failure at every offset, for every sequence of operations",
 "tests use a well-behaved in-memory reader with one chunk size",
 ["parse/parse.go", "parse/utf8.go", "parse/read/any.go", "parse/read/int.go", "parse/read/range.go", "parse/skip/space.go", "parse/skip/range.go"],
 [("current chunk plus look-ahead list refilled from the reader", "parse/parse.go Peek, PeekN, Consume, ConsumeN")],
 [("current, nextList", "unconsumed bytes", "parse.Source")],
 ["results and Error() compared with the string-backed source"])

prop("C21", "CloseAll closes every resource once and reports every failure",
 "CloseAll calls Close exactly once on each resource, in order, whatever earlier ones returned, and returns nil exactly if all succeeded, otherwise an error holding exactly the failures in order, now and later; MergeErrors does so for the errors given; Close returns the resource's error. Each failure is logged as one error event naming the place that called Close or CloseAll and carrying the caller's properties and that failure's own error, and the caller's property slice is left unchanged, also when several goroutines close concurrently with a shared one.",
 ["fault_sequences", "schedules"], "every pattern of close failures, resource counts, properties and concurrent callers",
 "no test of closing exists",
 ["closer.go", "countlog/countlog.go"],
 [("loop that logs and collects errors", "closer.go CloseAll, Close, MergeErrors")],
 None, ["Close calls, returned error, emitted events"])

prop("C22", "Call-style logging returns the caller's error, wrapped, at every level",
 "TraceCall, DebugCall, InfoCall and LogAccess return nil when given a nil error and otherwise a non-nil error whose text is the event message rendered with that call's properties, a colon and the given error's text, whatever the minimum level, the history of that event name and concurrent calls. A non-nil error is always logged (as a warning, LogAccess as an error) even if the level is disabled, exactly once.",
 ["schedules", "histories", "inputs"], "every interleaving and history of call-style logging with nil and non-nil errors under every minimum level",
 "tests never look at the returned error or at the output",
 ["countlog/countlog.go", "countlog/context.go", "msgfmt/msgfmt.go"],
 [("error path bypasses the level filter and wraps the error", "countlog/countlog.go log, xxxCall; countlog/context.go")],
 None, ["returned error and written records"])

prop("C23", "Logging end to end: each acknowledged event is on disk once after shutdown",
 "With the logging library writing through a blocking async writer into the rolling file, after the application stopped logging and Close returned, the files together contain exactly one whole record for each enabled event logged before Close, in an order consistent with the calls, across rotations and compression and for every interleaving; with the non-blocking writer each event is on disk once or was reported dropped once.",
 ["schedules", "configurations", "histories"], "every interleaving of application goroutines, writer goroutine, rotation and background compression, queue lengths and record sizes",
 "no test combines the components",
 ["countlog/countlog.go", "countlog/output/writer.go", "countlog/output/async/async.go", "countlog/output/lumberjack/lumberjack.go", "concurrent/unbounded_executor.go"],
 [("format buffer is recycled only after the async writer copied it", "countlog/output/writer.go, countlog/output/async/async.go"), ("close chain", "countlog/output/async/async.go Close")],
 None, ["directory content after Close"])

prop("C24", "Operations of reflect2 types have the effect and result of plain Go",
 "Every operation of a type obtained from reflect2, with the default implementation both the checked and the Unsafe form, given valid arguments (New, Indirect, Set, IsNil, PackEFace, LikePtr; slice MakeSlice, SetIndex, GetIndex, Append, Grow, SetNil, LengthOf, Cap; array and map element access, MakeMap, iteration giving every entry once; struct Field, FieldByName, FieldByIndex, FieldByNameFunc with Get and Set, fields of embedded structs included), has the effect and result of the equivalent plain Go, whatever operations went before, whichever goroutine obtained the type first, and whenever garbage is collected or stacks move; different types never get mixed up, and a checked operation of the default implementation panics and changes nothing when given a value of another type. The safe implementation's scalars, slices, arrays and maps do the same.",
 ["inputs", "schedules", "histories"], "every sequence of operations on every type, concurrent first use of a type, and every point at which memory is collected and reused",
 "the tests run single operations on a few types, one goroutine, without a collection in between",
 ["reflect2/reflect2.go", "reflect2/unsafe_type.go", "reflect2/unsafe_slice.go", "reflect2/unsafe_map.go", "reflect2/unsafe_struct.go", "reflect2/unsafe_field.go", "reflect2/unsafe_array.go", "reflect2/unsafe_eface.go", "reflect2/unsafe_iface.go", "reflect2/unsafe_ptr.go", "reflect2/safe_type.go", "reflect2/safe_slice.go", "reflect2/safe_map.go"],
 [("type cache", "reflect2/reflect2.go Type2, wrapType"), ("pointer-shaped types", "reflect2/reflect2.go likePtrType"), ("raw memory access", "reflect2/unsafe_*.go")],
 None, ["each result and every variable compared with a plain Go model after each operation"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
