"""Generates /verif/properties.jsonl (kept as a script so the statements stay reviewable)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext),
        why_tests_cant=why,
        anchors=dict(
            files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook),
    ))


prop("C01", "Every process a run started has exited and been reaped when the run ends",
     "When a run of a command or pipeline ends - by normal return, non-zero exit, I/O error, timeout, cancellation, an exception in the user's block, or early exit from an iteration, context or prompt - every child process started for it (the command, each pipeline member, each process substitution) has terminated and its exit status has been collected. No such process is left running, stopped or as a zombie. (A process the kernel itself cannot end - still alive three seconds after SIGKILL - is given up.)",
     ["schedules", "fault_sequences", "crash_points"],
     "all interleavings of children, event loop and child watcher; cancellation at any point (including during launch); children that ignore the cancel signal, stop, die by themselves, or are killed externally",
     "Tests cancel at a few fixed sleeps; the windows that matter (during fork, between spawn and task set-up, while the loop is already tearing down) are a few event-loop steps wide and are never hit by wall-clock sleeps.",
     ["shellous/runner.py", "shellous/harvest.py", "shellous/util.py"],
     [("Runner._start/_finish/_kill/_kill_wait", "shellous/runner.py"), ("uninterrupted spawn", "shellous/util.py"), ("PipeRunner._wait(kill=True)", "shellous/runner.py")],
     [("Runner._proc", "the asyncio process handle", "shellous/runner.py"), ("Runner._tasks / PipeRunner._tasks", "background tasks owned by a run", "shellous/runner.py")],
     ["process table after await / async-with / async-for / prompt returns or raises"])

prop("C02", "File descriptors are conserved across every run",
     "After a run ends by any route, including a failed or cancelled launch, every file descriptor the library opened for it (pipes, pseudo-terminals, redirection files, process-substitution pipes) is closed exactly once, and no descriptor the library does not own is ever closed. Descriptors the caller passed with close=True (or pass_fds with close=True) are closed exactly once; all other descriptors and file objects supplied by the caller stay open. This holds even while descendants of the command that inherited its pipes keep running.",
     ["schedules", "fault_sequences", "crash_points", "configurations"],
     "every redirection configuration combined with failure of any descriptor-creating system call, launch failure at any member of a pipeline, and cancellation at any point",
     "Tests compare lsof-style snapshots after a handful of runs; a leak or double close on an error path needs a particular system call to fail at a particular step, and a double close is silent unless the number was reused in between.",
     ["shellous/runner.py", "shellous/util.py", "shellous/pty_util.py", "shellous/pipeline.py"],
     [("_RunOptions.open_fds / __exit__", "shellous/runner.py"), ("_cleanup", "shellous/runner.py"), ("close_fds", "shellous/util.py"), ("PtyFds.close / ChildFd.close", "shellous/pty_util.py")],
     [("_RunOptions.open_fds", "descriptors to close after launch", "shellous/runner.py")],
     ["descriptor table before and after the run; EBADF on close"])

prop("C03", "Output reaches its sink complete, in order and unmodified",
     "For every sink (result buffer, bytearray, BytesIO, StringIO, file path with or without append, open file, Logger, StreamWriter, stderr merged into stdout, stderr-only), a run that ends normally delivers exactly the bytes the command wrote to that stream, in order, with no loss, duplication or truncation (Logger sinks receive each decoded line, right-stripped); append modes keep earlier content and non-append modes discard it. Default-buffered standard error is exactly the first error_limit bytes, and exceeding that limit never blocks the command.",
     ["inputs", "schedules", "configurations", "fault_sequences"],
     "arbitrary payloads and write-chunk boundaries, pipe capacities, short reads, multi-byte characters split anywhere, and any interleaving of exit, EOF and reads",
     "Tests use small payloads that arrive in one chunk; loss and duplication appear at chunk, limit and exit/EOF races which a test cannot steer.",
     ["shellous/redirect.py", "shellous/runner.py"],
     [("copy_* coroutines", "shellous/redirect.py"), ("_setup_output_sink / _setup_output", "shellous/runner.py")],
     [("Runner._options.output_bytes/error_bytes", "buffers for the Result", "shellous/runner.py")],
     ["sink contents vs. bytes the child wrote"])

prop("C04", "Standard input reaches the command complete, in order, then EOF",
     "For every input source (str, bytes, bytearray, BytesIO, StringIO, Path, open file or descriptor, StreamReader, empty default, DEVNULL) a command that reads its standard input to the end receives exactly the source's bytes in order, followed by end-of-file. A command that exits or closes its input without reading everything never hangs the run.",
     ["inputs", "schedules", "configurations", "fault_sequences"],
     "arbitrary payload sizes against arbitrary pipe capacities, partial writes, readers that stop early, stall or die at any byte",
     "Tests feed small inputs or one big one to cat; partial writes and early reader exit at specific byte positions are timing dependent.",
     ["shellous/redirect.py", "shellous/runner.py"],
     [("write_stream / write_reader", "shellous/redirect.py"), ("_setup_input / _setup_input_source", "shellous/runner.py")],
     [],
     ["bytes the child read, EOF observed"])

prop("C05", "The reported result is the truth about the process",
     "Whenever a run of a single command completes, the exit status reported (in a Result or ResultError) equals the real one: the exit code, or the negated signal number if a signal terminated the process (when the operating system has lost the status, the last signal the run sent stands in for it). ResultError is raised if and only if that status is outside the allowed exit_codes ({0} by default) or the run was cancelled with cancellation reported as a result, and Result.cancelled is true exactly when the run was cancelled.",
     ["schedules", "fault_sequences", "histories"],
     "every way a child can end (exit, signal by itself, killed externally, killed by the run) interleaved with cancellation and the child watcher, including a lost wait status",
     "Tests check a few statuses of processes that end by themselves; races between natural exit, external signals and the run's own signals decide what is reported.",
     ["shellous/runner.py", "shellous/result.py", "shellous/util.py"],
     [("Runner.returncode / Runner.result", "shellous/runner.py"), ("check_result", "shellous/result.py"), ("wait_pid", "shellous/util.py")],
     [("Runner._last_signal", "last signal sent, used when the wait status is lost", "shellous/runner.py")],
     ["Result / ResultError vs. kernel exit status"])

prop("C06", "Cancellation terminates politely, then by force, in bounded time",
     "When the task awaiting a command is cancelled, or its async-with block exits with an exception, while the process runs, the process is first sent exactly the configured cancel_signal (SIGTERM by default; SIGKILL when None) at once; if it has not finished within cancel_timeout it is sent SIGKILL, never earlier. The run then ends within a bounded time after that, and the caller sees CancelledError (or a ResultError with cancelled=True when cancellation is caught), or the block's own exception.",
     ["schedules", "fault_sequences", "crash_points"],
     "cancellation (single or repeated) at every point of a run against children that obey, delay, ignore or are stopped when the signal arrives",
     "Tests cancel after fixed sleeps and use real seconds; the ordering of signals, escalation time and repeated cancellation need controlled time and schedules.",
     ["shellous/runner.py", "shellous/harvest.py"],
     [("Runner._kill / _kill_wait / _signal", "shellous/runner.py"), ("harvest timeout", "shellous/harvest.py")],
     [("cancel_timeout, cancel_signal", "options", "shellous/command.py")],
     ["signals delivered to the child with their times; exception seen by the caller"])

prop("C07", "A timeout fires if and only if the process outlives it, and leaves no trace",
     "A command (without process substitutions) run with timeout=T raises TimeoutError if its process is still running T seconds after launch, having terminated that process with the cancellation protocol, and never if the process has finished before then. Once a run has ended, by whatever route, its timer can no longer cancel or otherwise affect the caller, and the caller's task is not left in a cancelling state, nor is any other cancellation request withdrawn from it, so enclosing timeouts and task groups keep working.",
     ["schedules", "fault_sequences"],
     "completion placed arbitrarily close to the deadline on either side, slow terminations, external cancellation colliding with expiry, stalls of the event loop",
     "Wall-clock tests cannot place an exit at the instant of expiry; a stray late cancellation hits unrelated code later and is not observed.",
     ["shellous/runner.py"],
     [("_start_timer/_set_timer_expired/_stop_timer", "shellous/runner.py"), ("__aexit__ TimeoutError mapping", "shellous/runner.py")],
     [("Runner._timer/_timed_out", "timer state", "shellous/runner.py")],
     ["exception type; task.cancelling(); later behaviour of the same task"])

prop("C08", "A pipeline connects its commands and reports the right member's status",
     "In a pipeline every byte each member writes to standard output is what the next member reads, in order, ending with end-of-file when the writer is done; the first member gets the pipeline's input and the last member's output is the pipeline's output. When all members have finished, the result carries the last member's output and the exit status and error text of the first member in pipeline order whose status is non-zero without having been cancelled, otherwise that of the last member.",
     ["inputs", "schedules", "fault_sequences"],
     "pipelines of 2..4 members with arbitrary payloads, pipe capacities, exit orders, statuses, early-exiting readers and inherited descriptors",
     "Tests use tr/cat/grep with tiny data; which member ends first and whether descriptors leak into siblings (preventing EOF) depends on scheduling.",
     ["shellous/runner.py", "shellous/result.py", "shellous/pipeline.py"],
     [("PipeRunner._setup_pipeline", "shellous/runner.py"), ("convert_result_list/_find_key_result", "shellous/result.py")],
     [("PipeRunner._results", "results per member", "shellous/runner.py")],
     ["bytes read per member; Result/ResultError of the pipeline"])

prop("C09", "A failing or cancelled pipeline is torn down as a whole, in bounded time",
     "If any member of a pipeline cannot be launched, or a member's redirection fails, or the pipeline is cancelled or its block raises, then the other members are terminated, the run ends in bounded time with that error (launch error, CancelledError, or the block's exception), and it never hangs. (Within a block or loop over a pipeline, the failure to launch a middle member is raised when the block ends.) This holds for awaiting, iterating, async-with and prompt use of the pipeline, whichever member fails and however the failure interleaves with the launch of the others.",
     ["schedules", "fault_sequences", "crash_points"],
     "failure injected at each member and each step of the launch, in each usage mode, under all launch orders",
     "Tests fail the first or last member in await mode only; a hang in one mode and one order is invisible to them.",
     ["shellous/runner.py", "shellous/harvest.py"],
     [("PipeRunner._start/_wait/_setup_capturing", "shellous/runner.py"), ("harvest_results", "shellous/harvest.py")],
     [],
     ["completion within a bounded virtual time; exception type"])

prop("C10", "Process substitution runs every substituted command to completion",
     "A command or pipeline passed as an argument is started with the outer command and its output (or input, when writable) is available to the outer command through the substituted path, byte for byte and ending in end-of-file. The outer run does not end before every substituted command has ended; an error of a substituted command makes an awaited or async-with run fail, and ending or failing of the outer run never leaves a substituted command, or its pipe, behind.",
     ["schedules", "fault_sequences", "inputs"],
     "one or more read or write substitutions, of commands or pipelines, with payloads, early exits, launch failures and cancellation at any point",
     "Tests cover diff/tee samples on the success path and one failing launch; descriptor inheritance and teardown races are not reached.",
     ["shellous/runner.py", "shellous/command.py"],
     [("_setup_process_substitution", "shellous/runner.py"), ("procsub tasks in Runner._tasks", "shellous/runner.py")],
     [("_RunOptions.subcmds", "substituted commands", "shellous/runner.py")],
     ["bytes read through /dev/fd path; completion order; descriptors"])

prop("C11", "Prompt neither loses nor reorders text, however it is chunked",
     "For any prompt session, the concatenation of everything returned by expect (text, match), read_pending and read_all plus the text still pending equals exactly the decoded output of the co-process so far read, in order - including across send, timeouts, cancelled operations and EOF. expect with a literal (or list of literals none of which is part of another) returns the earliest occurrence, independently of how the bytes were split into chunks, and everything the client sends arrives at the co-process unmodified and in order. command returns the text before the match or, with allow_eof, the rest of the output when that ends first, and raises EOFError once the end of the output has been read.",
     ["schedules", "inputs", "histories"],
     "arbitrary chunk boundaries (including inside multi-byte characters and CRLF), sends larger than the pipe while output is pending, expiring timeouts in between",
     "Tests see whatever chunking the OS happens to produce; losing a chunk when a read is cancelled between read and append is a one-step race.",
     ["shellous/prompt.py"],
     [("_read_to_pattern/_read_some/_search_pending", "shellous/prompt.py"), ("_drain concurrent read", "shellous/prompt.py")],
     [("Prompt._pending/_at_eof/_decoder", "decoded but unreturned text", "shellous/prompt.py")],
     ["history of expect/send/read calls vs. bytes written by co-process"])

prop("C12", "Prompt operations finish: match, EOF or timeout, without deadlock",
     "expect returns as soon as matching output has arrived, raises EOFError once the output ends without a match, and otherwise raises TimeoutError when its timeout expires, no earlier and not much later; after a timeout the session is still usable. send never deadlocks while the co-process is blocked writing output, and closing the prompt or leaving its block ends the session with the result available, in bounded time once the co-process (which sees end of input) exits, provided its remaining output is read or fits in the pipe.",
     ["schedules", "fault_sequences", "histories"],
     "co-processes that answer late, never, in pieces, flood output, stop reading, or die at any point relative to each operation",
     "Tests rely on co-operative shells and real seconds; the mutual-blocking cases need both pipes full at once.",
     ["shellous/prompt.py", "shellous/command.py", "shellous/pipeline.py"],
     [("Prompt.send/_drain", "shellous/prompt.py"), ("Command.prompt / Pipeline.prompt", "shellous/command.py")],
     [],
     ["return/exception and virtual time of every prompt operation"])

prop("C13", "Async iteration yields exactly the output's lines and cleans up on early exit",
     "Iterating over a command or pipeline yields exactly the lines of its decoded output in order, with line endings kept and a final unterminated line included, each exactly once. When the loop ends, is left early by break or by an exception, or is cancelled, and the iterator is closed, the process has been ended as for cancellation. A command or pipeline member that could not be launched is raised as that error, and a cancellation of the iterating task is never swallowed.",
     ["schedules", "inputs", "fault_sequences"],
     "arbitrary line lengths up to the stream limit and chunkings; break, exception or cancellation after any line",
     "Tests iterate a few short lines; chunk boundaries inside lines and early exit while the child is blocked on a full pipe are not steered.",
     ["shellous/command.py", "shellous/pipeline.py", "shellous/runner.py", "shellous/redirect.py"],
     [("Command.__aiter__/Pipeline.__aiter__", "shellous/command.py"), ("read_lines", "shellous/redirect.py")],
     [],
     ["sequence of yielded lines; process state after the loop"])

prop("C14", "Audit callbacks bracket every run exactly once",
     "For every run of a command with an audit callback, the callback is called with 'start' exactly once first and with 'stop' exactly once last, and with 'signal' (naming that signal) exactly once for each signal the library sends, between the two. The stop event's failure is empty if and only if the launch and set-up succeeded, otherwise the name of the exception that ended it; this holds for success, failure, timeout and cancellation at any point.",
     ["schedules", "fault_sequences", "crash_points"],
     "cancellation and launch failure at every step of a run and for each member of pipelines and process substitutions",
     "Tests sample success, not-found and one cancellation; pairing on rare exits (cancel during spawn, failure after spawn) is not sampled.",
     ["shellous/runner.py"],
     [("_audit_callback in __aenter__/__aexit__/_signal", "shellous/runner.py")],
     [],
     ["callback history vs. kernel signal history"])

prop("C15", "harvest leaves no awaitable unfinished",
     "When harvest or harvest_results returns or raises - for completion, first exception, timeout or cancellation, even repeated once - all the awaitables it was given are done, provided each finishes within the cancel timeout after being cancelled. harvest raises the exception of a failed awaitable (cancelling the rest at once), harvest_results returns all results and exceptions in argument order plus whether it was cancelled, and a timeout raises TimeoutError exactly when not all finished in time.",
     ["schedules", "fault_sequences", "histories"],
     "sets of tasks that finish, fail, delay, ignore cancellation once, or raise during cleanup, at times colliding with timeout and cancellation",
     "Tests use a few fixed sleeps; simultaneous completion, failure, timeout and double cancellation need a controlled scheduler.",
     ["shellous/harvest.py"],
     [("harvest_wait/_cancel_wait/_cancel_waiter", "shellous/harvest.py")],
     [],
     ["task states on return; virtual time; exception"])

prop("C16", "The child watcher reports every exit exactly once with the right status",
     "For every process registered with the library's child watcher (pidfd or thread strategy), its callback is called exactly once with that process's pid and true exit status, after the process has ended, whatever order processes are registered and exit in and however the watcher's thread interleaves with registering threads. If registration itself fails the process is killed and still reaped, and closing the watcher releases its descriptors and its thread.",
     ["schedules", "fault_sequences"],
     "processes exiting before, during and after registration; several registering threads; pid and descriptor reuse; descriptor exhaustion; close at any point",
     "Real threads hit the races (descriptor reuse between reaping and removal, first-use initialisation) too rarely; tests cannot choose the preemption point.",
     ["shellous/watcher.py", "shellous/util.py"],
     [("EPollStrategy._run/_add_pidfd/_reap_pidfd/_remove_pidfd", "shellous/watcher.py"), ("ThreadStrategy._reap_pid", "shellous/watcher.py"), ("DefaultChildWatcher._lock", "shellous/watcher.py")],
     [("_pidfds / _pids", "registered processes", "shellous/watcher.py")],
     ["callback history vs. kernel exit history; descriptors; zombies"])

prop("C17", "A command run in a pseudo-terminal sees a terminal and loses no output",
     "A command run with pty has the pseudo-terminal as its controlling terminal, in a new session, for each standard stream that is not redirected, and all it writes, alone or as the last member of a pipeline, arrives complete and in order (line endings translated by the terminal), with the terminal's hang-up treated as end-of-file. The terminal has the mode and size that were asked for before the program starts; the echo setting a prompt reports is the real one, and text sent with no_echo is sent only when the terminal does not echo it. Input is delivered followed by the terminal's end-of-file so that a command reading to the end terminates, and after the run, including a failed or cancelled launch, both ends of the pseudo-terminal are closed.",
     ["schedules", "fault_sequences", "configurations"],
     "cooked, cbreak and raw modes, echo on and off, partial last lines, exit racing output, launch failure and cancellation at any step",
     "Tests use real ptys with stty-like samples; hang-up vs. last output races and failing launches are not steered.",
     ["shellous/pty_util.py", "shellous/runner.py", "shellous/redirect.py"],
     [("_open_pty_streams / PtyStreamReaderProtocol", "shellous/pty_util.py"), ("_setup_pty1", "shellous/runner.py"), ("eof handling in write_stream/write_reader", "shellous/redirect.py")],
     [("PtyFds", "pty descriptors and streams", "shellous/pty_util.py")],
     ["bytes at sink, bytes child read, session/ctty of child, descriptors"])

prop("C18", "Commands are reusable: concurrent and nested runs do not interfere",
     "One command or pipeline object may be run any number of times, sequentially, concurrently from several tasks, or nested in the same task, in one event loop or in several calls of asyncio.run(), in any of the await, iteration, context-manager and prompt forms, and each run behaves as if it were alone: it gets its own process, its own result and its own output. Entering the same object several times in one task and leaving in any properly nested order releases the matching run each time.",
     ["schedules", "histories"],
     "several tasks running the same object in different forms with failures and cancellation of some of them under all interleavings",
     "Tests run a few gathers of the same command; mixing of runs through shared state needs specific interleavings and nestings.",
     ["shellous/util.py", "shellous/command.py", "shellous/pipeline.py"],
     [("context_aenter/context_aexit stacks", "shellous/util.py")],
     [("_CONTEXT_STACKS", "stack of runs per (object, task)", "shellous/util.py")],
     ["outputs/results of each concurrent run"])

prop("C19", "A child inherits only the descriptors it should",
     "Each started process has exactly its three standard streams plus the descriptors named in pass_fds and the substitution paths in its own arguments (unless close_fds=False, when only inheritable ones are added); no end of any internal pipe or pseudo-terminal of the same or another concurrent run is open in it. Hence end-of-file on any pipe depends only on the processes connected to that pipe.",
     ["schedules", "configurations"],
     "concurrent launches of commands, pipelines, ptys and substitutions in all interleavings",
     "Tests list descriptors of a single child; a leak into a concurrently started sibling depends on which fork falls between pipe creation and close.",
     ["shellous/runner.py", "shellous/command.py"],
     [("close_fds/pass_fds handling in _setup_pass_fds and _setup_process_substitution", "shellous/runner.py")],
     [],
     ["descriptor table of each child at exec"])

prop("C20", "A failed launch raises its cause and leaves nothing behind",
     "If a command cannot be started (missing or unexecutable program, unreadable input or unwritable output path, descriptor or process limits, failing audit hook, callback or pty configuration), the run raises that very error and not another one, promptly. No process, descriptor, task or callback of that run remains, and descriptors handed over with close=True are closed.",
     ["fault_sequences", "configurations", "crash_points"],
     "failure of each system call on the launch path, in every redirection configuration, for single commands, pipelines and substitutions",
     "Tests cover missing executables; errors such as EMFILE/EAGAIN/ENOMEM/EACCES at each individual step need injection.",
     ["shellous/runner.py", "shellous/pty_util.py", "shellous/util.py"],
     [("_RunOptions.__enter__/__exit__ error paths", "shellous/runner.py"), ("Runner._start error path", "shellous/runner.py")],
     [],
     ["exception identity; descriptor, process and task tables"])

prop("C21", "No background work or unhandled error outlives a run",
     "When a run ends by any route, no task or timer that the library created for it is still pending, and nothing was reported to the event loop's exception handler or lost as a never-retrieved task exception on its behalf.",
     ["schedules", "fault_sequences", "crash_points"],
     "all routes and faults of the other properties",
     "Leaked tasks show up as log noise long after a test passed; which route leaks depends on the interleaving.",
     ["shellous/runner.py", "shellous/harvest.py", "shellous/prompt.py"],
     [("harvest/harvest_results consumption", "shellous/harvest.py"), ("Runner._close", "shellous/runner.py")],
     [],
     ["asyncio.all_tasks, loop exception handler, asyncio log"])

prop("C22", "Data flow never deadlocks",
     "Whenever a command's own behaviour allows progress (its output streams are captured or redirected by the library and its input is supplied by the library), a run completes: arbitrary amounts of input and output flowing simultaneously over standard input, output, error, pipelines and substitutions never block each other permanently.",
     ["schedules", "inputs", "configurations"],
     "arbitrary volumes and orders of reads and writes on all streams against arbitrary (small) pipe capacities, in all redirection modes",
     "With 64 KiB pipes and small test data no buffer ever fills; with tiny simulated pipes every ordering is reachable.",
     ["shellous/runner.py", "shellous/redirect.py", "shellous/harvest.py"],
     [("concurrent stdin/stdout/stderr tasks", "shellous/runner.py"), ("read-and-discard after error_limit", "shellous/redirect.py")],
     [],
     ["global progress: no state where everything is blocked before the run ends"])

NA_TEXT = "pure function of its input: no schedule, clock, I/O or fault takes part"
prop("C23", "A process gets exactly the arguments and environment its command says",
     "When a command runs, the process is started with the documented argument vector (arguments of supported types flattened in order and converted, unsupported ones refused when the command is built) and with exactly the documented environment: the inherited variables as they are when it runs, overridden by its own, or only its own when it does not inherit. This holds however the command was put together, whatever other commands were derived from it or run at the same time, and however the objects given as arguments or the environment of the program change afterwards; a program that is not in the command's search path is not run.",
     ["inputs", "histories", "schedules", "fault_sequences"], "all argument and environment values, all ways to put a command together, concurrent runs, changes of the inherited environment, failed launches",
     "Tests sample a few types, one command at a time, and look at the command object more than at what the process was given.",
     ["shellous/command.py", "shellous/util.py", "shellous/runner.py"], [("coerce, Options.runtime_env, Options.which", "shellous/command.py"), ("_RunOptions.__enter__", "shellous/runner.py")])
prop("C24", "Commands are immutable values",
     "Every operation that configures a command, a context or a pipeline returns a new value and leaves the original unchanged; so does running it, whether it succeeds, fails or is cancelled, alone or many times at once. At any later time a value equals (with the same hash) whatever the same calls make anew, values with different settings differ, equal values have equal hashes, assignments to them are refused, and running it still does what it was configured for.",
     ["inputs", "histories", "schedules", "fault_sequences"], "all sequences of configuration calls interleaved with runs of the shared values",
     "Tests sample a few chains of calls.",
     ["shellous/command.py", "shellous/pipeline.py", "shellous/util.py"], [("frozen dataclasses", "shellous/command.py"), ("EnvironmentDict", "shellous/util.py")])

prop("C25", "The handle of a running command tells the truth and signals only its own process",
     "While a run is in an async-with block and after it, the handle's pid is the process id of the command's own process, its returncode is None while that process has not ended and then the process's real status (never anything else, and known once the block has ended), its name is that of the command (alt_name if one was given, otherwise the program's, cut to its last 31 characters), and cancelled is only ever true after a cancellation or timeout. A signal sent with send_signal() or cancel() while the process runs reaches that process, exactly once and with exactly the number asked for (cancel: the configured cancel signal), and once the process has ended nothing is sent to any process, even if its process id is in use again.",
     ["schedules", "inputs", "fault_sequences"], "all moments of looking and signalling in a run; processes which end by themselves, are killed by others, handle or ignore signals",
     "Tests look at the handle at a few quiet moments; the windows in which a process has ended but its end is not known yet are never hit.",
     ["shellous/runner.py"], [("Runner.pid/returncode/cancelled/send_signal/cancel/_signal", "shellous/runner.py"), ("PipeRunner.pid", "shellous/runner.py")])

prop("C26", "Background tasks added to a run belong to it",
     "A task added to a running command with add_task() has finished whenever the `async with` block of the run has been left, by whatever route. While nothing fails, it is never cancelled: the run waits for it as it waits for the process. When it fails, the run fails: once the block's body is done, the process is terminated by the cancellation protocol rather than waited for, and the task's own exception (not a status, and never nothing) is what the caller gets, unless something else ended the run earlier.",
     ["schedules", "programs", "fault_sequences"], "tasks that end, fail, outlive the process, refuse or delay their cancellation, added at any moment of a run that ends normally, by failure, cancellation or timeout",
     "Tests add a task in one or two places and never let it fail or outlive the process.",
     ["shellous/runner.py", "shellous/harvest.py"], [("Runner.add_task/_wait/_kill", "shellous/runner.py"), ("harvest", "shellous/harvest.py")])

prop("C27", "Tracing changes nothing but the log, and never shows a secret",
     "Switching on SHELLOUS_TRACE (detail, prompt, all) only adds log records: the outcome of every run, the lines and texts it delivers, the moment it ends, and every system call, signal and exit on the way are those of the same execution without tracing. Formatting a record never fails; every step recorded as entered is recorded as left; a session's beginning and the texts sent in it are recorded at INFO level. Text sent with no_echo=True appears in no record (unless the terminal or the process itself shows it).",
     ["schedules", "inputs", "fault_sequences"], "the scenarios of the other properties (sessions with and without secrets, cancellations, timeouts, failing launches, pseudo-terminals, pipelines, iterations), executed with and without tracing under the same schedule and faults",
     "The test suite runs with or without tracing, never the same schedule both ways; wrappers around every step can change an exception, a cancellation, a return value or the moment a generator is closed only in rare interleavings, and a leaked password breaks no test.",
     ["shellous/log.py", "shellous/prompt.py", "shellous/runner.py"], [("log_method wrappers", "shellous/log.py"), ("Prompt._log_send/_log_receive", "shellous/prompt.py")])

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(path, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
