"""Writes known_findings.json (kept as a script so the entries stay reviewable)."""
import json, os

FINDINGS = [
    dict(property="C07", kind="timeout-in-loop-body", match="",
         what="async for over a command with timeout=T: when the timeout expires while the loop body (the caller's "
              "own code between two lines) is awaiting something, the caller sees CancelledError instead of "
              "TimeoutError, because the exception is delivered outside the async generator, which cannot translate "
              "it (shellous/command.py Command.__aiter__; e.g. C07 seed 1841)"),
    dict(property="C05", kind="status-255", match="",
         what="a process that was sent a signal with Runner.send_signal()/cancel(), survived it and later exited with "
              "status 255 is reported with exit code -signal: 255 is also what asyncio reports when the status was lost, "
              "and Runner.returncode (shellous/runner.py) cannot tell them apart (e.g. C05 seed 15016)"),
]
# (property, commit, what failed)
FIXED = [
    ("C02", "af4b2b8", "a failing open/dup/pipe while a command's redirections were set up leaked descriptors or closed them twice"),
    ("C17", "097e3a0", "pty descriptors stayed open when tcsetattr/ttyname/callback or the launch failed"),
    ("C06", "3fb6f58", "an OSError from closing streams replaced CancelledError or the original exception"),
    ("C09", "5220a7a", "a pipeline member cancelled before it started leaked its pipe ends, and its neighbours hung"),
    ("C02", "109aba3", "close_fds stopped at the first close() that failed"),
    ("C07", "b86a44b", "after a TimeoutError task.cancelling() stayed > 0"),
    ("C12", "3358abd", "a cancellation of a task inside a prompt block was swallowed"),
    ("C01", "7d4676a", "a second cancellation during launch orphaned the started process"),
    ("C06", "eb6701b", "tearing down a pipeline cancelled members twice: the second cancellation cut cancel_timeout short"),
    ("C20", "327c213", "os.pipe() failing in a pipeline raised UnboundLocalError/another error instead of the OSError"),
    ("C04", "5e3e520", "an open file object as standard input was rejected"),
    ("C20", "5fd2923", "descriptors leaked when the audit callback raised on 'start'"),
    ("C13", "c3deb41", "async for swallowed the cancellation of the iterating task"),
    ("C09", "ed87eb5", "iterating over a pipeline whose member could not be launched ended without an error"),
    ("C12", "db8db39", "prompt() raised AssertionError/AttributeError for lack of a result, masking the original exception"),
    ("C16", "18ec4f0", "EPollStrategy leaked epoll/pidfd descriptors when start-up or registration failed"),
    ("C01", "9f72835", "a process whose exit could not be watched (pidfd_open/thread start failing) was left running"),
    ("C07", "f661a03", "a timeout colliding with another exception left the task's cancelling() count raised"),
    ("C15", "d2eab36", "harvest_wait swallowed a cancellation that arrived while it collected pending tasks"),
    ("C11", "7b21f2b", "expect() cancelled after the match lost the matched text"),
    ("C15", "8395cd9", "a second cancellation of harvest_wait left its tasks running"),
    ("C01", "8d829dc", "a cancellation while waiting for a killed process left it unreaped"),
    ("C12", "e940eaf", "a pipeline's prompt() replaced the caller's exception with a command's"),
    ("C02", "d558ea0", "the stdin pipe stayed open when a killed process (with a surviving descendant) left input unread"),
    ("C17", "135b280", "with pty and redirected stdout, stderr=STDOUT went to the terminal instead"),
    ("C17", "b2a76e3", "the pty output of a pipeline's last member was cut off when the process exited"),
    ("C15", "e52d3e9", "harvest with return_when=ALL_COMPLETED did not raise TimeoutError when an awaitable had failed before"),
    ("C16", "2cefaa3", "ThreadStrategy asserted when a reaped process' pid was reused before its callback had run"),
    ("C03", "bf5bbb6", "a pipeline's captured output was cut off when its last process had exited before it was waited for"),
    ("C06", "f0361fc", "a cancellation while a killed process' pipes stayed open became RuntimeError"),
    ("C12", "c5c14d2", "an error while sending to a prompt was replaced by the end of its reader"),
    ("C02", "da7e249", "a descriptor given to both stdout and stderr with close=True was closed twice"),
    ("C21", "33127e5", "harvest_results left exceptions of other awaitables unretrieved when it raised one"),
    ("C02", "a64a27b", "a file object given to stdout or stderr with close=True stayed open"),
    ("C07", "a52a38f", "with an eager task factory, the timer of a run that had finished was started and never stopped"),
    ("C21", "32b3d2b", "a reader's error was never retrieved when Prompt.send was cancelled"),
    ("C26", "f7cb02e", "a background task that raised a BaseException left the process running"),
    ("C17", "87d85ea", "AssertionError with a pty, stdout=DEVNULL and stderr=STDOUT"),
    ("C09", "f3ed2e0", "AssertionError when the commands of a pipeline were cancelled before they were launched"),
    ("C24", "345877b", "commands equal up to the order in which their environment was given had different hashes"),
]
doc = dict(findings=FINDINGS, fixed=[f"fixed: property={p} {c} {w}" for p, c, w in FIXED])
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
with open(path, "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
