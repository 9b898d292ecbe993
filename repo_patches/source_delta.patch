From af4b2b828292bf96fd173ac230e6322381351107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 01/40] fix: close every descriptor exactly once when a
 command's setup fails

---
 shellous/runner.py | 55 +++++++++++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 0d74355..fd34c3e 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -121,7 +121,7 @@ class _RunOptions:
         except Exception as ex:
             if LOG_DETAIL:
                 LOGGER.debug("_RunOptions.enter %r ex=%r", self.command.name, ex)
-            _cleanup(self.command)
+            _cleanup(self.command, *self.subcmds, open_fds=self.open_fds)
             raise
 
         assert _cmd is self.command, "self.command should remain unchanged"
@@ -142,8 +142,7 @@ class _RunOptions:
                     self.command.name,
                     exc_value,
                 )
-            for subcmd in self.subcmds:
-                _cleanup(subcmd)
+            _cleanup(*self.subcmds)
 
     def _setup_process_substitution(self) -> list[Union[str, bytes, os.PathLike[Any]]]:
         """Set up process substitution.
@@ -162,22 +161,23 @@ class _RunOptions:
                 continue
 
             (read_fd, write_fd) = os.pipe()
+            # The command's end is closed after process launch.
             if _is_writable(arg):
+                self.open_fds.append(write_fd)
                 new_args.append(f"/dev/fd/{write_fd}")
                 new_fds.append(write_fd)
                 subcmd = arg.stdin(read_fd, close=True)
             else:
+                self.open_fds.append(read_fd)
                 new_args.append(f"/dev/fd/{read_fd}")
                 new_fds.append(read_fd)
                 subcmd = arg.stdout(write_fd, close=True)
 
             self.subcmds.append(subcmd)
 
-        # We need to include `new_fds` in our `pass_fds` list. We also need
-        # to close them after process launch.
+        # We need to include `new_fds` in our `pass_fds` list.
         self.kwd_args["pass_fds"] = new_fds
         self.kwd_args["close_fds"] = True
-        self.open_fds.extend(new_fds)
 
         if BSD_DERIVED:
             verify_dev_fd(new_fds[0])
@@ -1255,22 +1255,41 @@ def _is_multiple_capture(cmd: "shellous.Command[Any]"):
     return output == Redirect.CAPTURE and error == Redirect.CAPTURE
 
 
-def _cleanup(command: "Union[shellous.Command[Any], shellous.Pipeline[Any]]"):
-    "Close remaining file descriptors that need to be closed."
+def _cleanup(
+    *commands: "Union[shellous.Command[Any], shellous.Pipeline[Any]]",
+    open_fds: Optional[list[Any]] = None,
+):
+    """Close file descriptors that need to be closed by commands that won't run.
 
-    def _add_close(close: bool, fdesc: Any):
-        if close:
-            if isinstance(fdesc, (int, io.IOBase)):
-                open_fds.append(fdesc)
+    `open_fds` lists other descriptors to close. Each one is closed only once.
+    """
+    if open_fds is None:
+        open_fds = []
+
+    def _add(close: bool, fdesc: Any):
+        if close and isinstance(fdesc, (int, io.IOBase)) and fdesc not in open_fds:
+            open_fds.append(fdesc)
+
+    def _add_command(command: "Union[shellous.Command[Any], shellous.Pipeline[Any]]"):
+        if isinstance(command, shellous.Pipeline):
+            for cmd in command.commands:
+                _add_command(cmd)
+            return
 
-    open_fds: list[Any] = []
+        options = command.options
+        _add(options.input_close, options.input)
+        _add(options.output_close, options.output)
+        _add(options.error_close, options.error)
+        for fdesc in options.pass_fds:
+            _add(options.pass_fds_close, fdesc)
 
-    _add_close(command.options.input_close, command.options.input)
-    _add_close(command.options.output_close, command.options.output)
-    _add_close(command.options.error_close, command.options.error)
+        # Process substitution.
+        for arg in command.args:
+            if isinstance(arg, (shellous.Command, shellous.Pipeline)):
+                _add_command(arg)
 
-    if command.options.pass_fds_close:
-        open_fds.extend(command.options.pass_fds)
+    for command in commands:
+        _add_command(command)
 
     close_fds(open_fds)
 
-- 
2.43.0


From 097e3a0d4a0cf5188f69ed9d9a33f0a2738a7af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:50 +0000
Subject: [PATCH 02/40] fix: close pty descriptors when the pty setup or
 process launch fails

---
 shellous/pty_util.py | 55 +++++++++++++++++++++++++++++---------------
 shellous/runner.py   |  6 ++++-
 2 files changed, 42 insertions(+), 19 deletions(-)

diff --git a/shellous/pty_util.py b/shellous/pty_util.py
index b3413d0..bbcde5d 100644
--- a/shellous/pty_util.py
+++ b/shellous/pty_util.py
@@ -58,7 +58,11 @@ class PtyFds(NamedTuple):
     @log_method(LOG_DETAIL)
     async def open_streams(self) -> "PtyFds":
         "Open pty reader/writer streams."
-        reader, writer = await _open_pty_streams(self.parent_fd, self.child_fd)
+        try:
+            reader, writer = await _open_pty_streams(self.parent_fd, self.child_fd)
+        except BaseException:
+            self.child_fd.close()
+            raise
         return PtyFds(
             self.parent_fd,
             self.child_fd,
@@ -82,16 +86,20 @@ def open_pty(pty_func: PtyAdapterOrBool) -> PtyFds:
     "Open pseudo-terminal (pty) descriptors. Returns (PtyFds, child_fd)."
     parent_fd, child_fd = pty.openpty()
 
-    # If pty_func is a callable, call it here with `child_fd` as argument. This
-    # gives the client an opportunity to configure the tty.
-    if callable(pty_func):
-        pty_func(child_fd)
+    try:
+        # If pty_func is a callable, call it here with `child_fd` as argument.
+        # This gives the client an opportunity to configure the tty.
+        if callable(pty_func):
+            pty_func(child_fd)
 
-    return PtyFds(
-        parent_fd,
-        ChildFd(child_fd),
-        _get_eof(child_fd),
-    )
+        return PtyFds(
+            parent_fd,
+            ChildFd(child_fd),
+            _get_eof(child_fd),
+        )
+    except BaseException:
+        close_fds([parent_fd, child_fd])
+        raise
 
 
 def set_ctty(ttypath: str) -> None:
@@ -158,15 +166,26 @@ async def _open_pty_streams(parent_fd: int, child_fd: ChildFd):
     # first data is received on BSD systems.
     reader_protocol.pty__child_fd = child_fd
 
-    reader_transport, _ = await loop.connect_read_pipe(
-        lambda: reader_protocol,
-        os.fdopen(parent_fd, "rb", 0, closefd=False),
-    )
+    # The writer's file object owns `parent_fd`.
+    writer_file = os.fdopen(parent_fd, "wb", 0, closefd=True)
+    reader_transport = None
+
+    try:
+        reader_transport, _ = await loop.connect_read_pipe(
+            lambda: reader_protocol,
+            os.fdopen(parent_fd, "rb", 0, closefd=False),
+        )
+
+        writer_transport, writer_protocol = await loop.connect_write_pipe(
+            asyncio.streams.FlowControlMixin,
+            writer_file,
+        )
+    except BaseException:
+        if reader_transport is not None:
+            reader_transport.close()
+        writer_file.close()
+        raise
 
-    writer_transport, writer_protocol = await loop.connect_write_pipe(
-        asyncio.streams.FlowControlMixin,
-        os.fdopen(parent_fd, "wb", 0, closefd=True),
-    )
     writer = asyncio.StreamWriter(writer_transport, writer_protocol, reader, loop)
 
     # Patch writer_transport.close so it also closes the reader_transport.
diff --git a/shellous/runner.py b/shellous/runner.py
index fd34c3e..b1eecbb 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -692,6 +692,8 @@ class Runner:
                 self._set_cancelled()
             if self._proc:
                 await self._kill()
+            elif self._options.pty_fds:
+                self._options.pty_fds.close()
             raise
 
         # Make final streams available. These may be different from `self.proc`
@@ -716,7 +718,9 @@ class Runner:
 
         # Second half of pty setup.
         if opts.pty_fds:
-            opts.pty_fds = await opts.pty_fds.open_streams()
+            # If `open_streams` fails, it closes the file descriptors itself.
+            pty_fds, opts.pty_fds = opts.pty_fds, None
+            opts.pty_fds = await pty_fds.open_streams()
 
         # Check for task cancellation and yield right before exec'ing. If the
         # current task is already cancelled, this will raise a CancelledError,
-- 
2.43.0


From 3fb6f58b199c8ab4cbc10f8ff06f912bcba7dd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:33 +0000
Subject: [PATCH 03/40] fix: closing a run's streams must not replace its
 cancellation or exception; also close them when the run fails just after
 launch

---
 shellous/runner.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index b1eecbb..eee3a4e 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -691,7 +691,10 @@ class Runner:
             if _is_cancelled(ex):
                 self._set_cancelled()
             if self._proc:
-                await self._kill()
+                try:
+                    await self._kill()
+                finally:
+                    await self._close(ex)
             elif self._options.pty_fds:
                 self._options.pty_fds.close()
             raise
@@ -896,12 +899,19 @@ class Runner:
             await self._wait()
             return False
 
+        except Exception as ex:
+            exc_value = ex
+            raise
+
         finally:
-            await self._close()
+            await self._close(exc_value)
 
     @log_method(LOG_DETAIL)
-    async def _close(self):
-        "Make sure that our resources are properly closed."
+    async def _close(self, exc_value: Union[BaseException, None]):
+        """Make sure that our resources are properly closed.
+
+        `exc_value` is the exception that is already being handled, if any.
+        """
         assert self._proc is not None
 
         if self._options.pty_fds:
@@ -931,6 +941,13 @@ class Runner:
         except asyncio.TimeoutError:
             LOGGER.critical("Runner._close %r timeout stdin=%r", self, self._proc.stdin)
 
+        except (BrokenPipeError, ConnectionResetError) as ex:
+            # Unwritten input is not surprising if the process was killed. Don't
+            # replace the original exception or the cancellation.
+            if exc_value is None and not self._cancelled:
+                raise
+            LOGGER.debug("Runner._close %r ex=%r", self, ex)
+
     def _audit_callback(
         self,
         phase: str,
-- 
2.43.0


From 5220a7a5e1b95fd82f7558a067f35720db5421c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:11 +0000
Subject: [PATCH 04/40] fix: a pipeline member that never starts or fails to
 launch must not leak descriptors or block the pipeline

---
 shellous/runner.py | 84 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 58 insertions(+), 26 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index eee3a4e..705531a 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -736,7 +736,7 @@ class Runner:
 
         # Launch the process substitution commands (if any).
         for cmd in opts.subcmds:
-            self.add_task(cmd.coro(), "procsub")
+            _add_command_task(self, cmd, "procsub")
 
     @log_method(LOG_DETAIL)
     async def _subprocess_exec(self, opts: _RunOptions):
@@ -1152,30 +1152,30 @@ class PipeRunner:
     async def _start(self):
         "Set up redirection and launch pipeline."
         open_fds: list[int] = []
+        stdin = None
+        stdout = None
+        stderr = None
 
         try:
-            stdin = None
-            stdout = None
-            stderr = None
-
             cmds = self._setup_pipeline(open_fds)
 
-            if self._capturing:
-                stdin, stdout, stderr = await self._setup_capturing(cmds)
-            else:
-                for cmd in cmds:
-                    self.add_task(cmd.coro())
+        except BaseException:  # pylint: disable=broad-except
+            # Clean up after any exception.
+            _cleanup(self._pipe, open_fds=open_fds)
+            raise
 
-            self.stdin = stdin
-            self.stdout = stdout
-            self.stderr = stderr
+        # From here on, each command's task closes its own file descriptors.
+        if self._capturing:
+            stdin, stdout, stderr = await self._setup_capturing(cmds)
+        else:
+            for cmd in cmds:
+                _add_command_task(self, cmd)
 
-            return self
+        self.stdin = stdin
+        self.stdout = stdout
+        self.stderr = stderr
 
-        except BaseException:  # pylint: disable=broad-except
-            # Clean up after any exception *including* CancelledError.
-            close_fds(open_fds)
-            raise
+        return self
 
     def _setup_pipeline(self, open_fds: list[int]):
         """Return the pipeline stitched together with pipe fd's.
@@ -1205,15 +1205,11 @@ class PipeRunner:
         first_fut = loop.create_future()
         last_fut = loop.create_future()
 
-        first_coro = cmds[0].coro(_run_future=first_fut)
-        last_coro = cmds[-1].coro(_run_future=last_fut)
-        middle_coros = [cmd.coro() for cmd in cmds[1:-1]]
-
         # Tag each task name with the index of the command in the pipe.
-        self.add_task(first_coro, "0")
-        for i, coro in enumerate(middle_coros):
-            self.add_task(coro, str(i + 1))
-        self.add_task(last_coro, str(len(cmds) - 1))
+        _add_command_task(self, cmds[0], "0", run_future=first_fut)
+        for i, cmd in enumerate(cmds[1:-1]):
+            _add_command_task(self, cmd, str(i + 1))
+        _add_command_task(self, cmds[-1], str(len(cmds) - 1), run_future=last_fut)
 
         # When capturing, we need the first and last commands in the
         # pipe to signal when they are ready.
@@ -1262,6 +1258,42 @@ class PipeRunner:
         return result.output
 
 
+def _add_command_task(
+    runner: Union[Runner, PipeRunner],
+    command: "Union[shellous.Command[Any], shellous.Pipeline[Any]]",
+    tag: str = "",
+    *,
+    run_future: Optional[asyncio.Future[Runner]] = None,
+) -> None:
+    """Add a background task to `runner` that runs `command`.
+
+    If the task is cancelled before it can start, its file descriptors are
+    closed. If the task finishes without setting `run_future`, the future
+    fails also.
+    """
+    started = False
+
+    async def _run():
+        nonlocal started
+        started = True
+        if run_future is not None:
+            assert isinstance(command, shellous.Command)
+            return await command.coro(_run_future=run_future)
+        return await command.coro()
+
+    def _done(task: asyncio.Task[Any]):
+        if not started:
+            _cleanup(command)
+        if run_future is not None and not run_future.done():
+            ex = None if task.cancelled() else task.exception()
+            if ex is not None:
+                run_future.set_exception(ex)
+            else:
+                run_future.cancel()
+
+    runner.add_task(_run(), tag).add_done_callback(_done)
+
+
 def _uses_process_substitution(cmd: "shellous.Command[Any]") -> bool:
     "Return True if command uses process substitution."
     return any(
-- 
2.43.0


From 109aba3cab20a0c967689620840da06f3545b572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:54 +0000
Subject: [PATCH 05/40] fix: close_fds closes the remaining descriptors after
 one close() fails

---
 shellous/util.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/shellous/util.py b/shellous/util.py
index e3e23b3..8f8aa59 100644
--- a/shellous/util.py
+++ b/shellous/util.py
@@ -61,14 +61,13 @@ def close_fds(open_fds: Iterable[Union[SupportsClose, int]]) -> None:
     with log_timer("close_fds"):
         try:
             for obj in open_fds:
-                if isinstance(obj, int):
-                    if obj >= 0:
-                        try:
-                            os.close(obj)
-                        except OSError as ex:
-                            LOGGER.warning("os.close ex=%r", ex, stack_info=True)
-                else:
-                    obj.close()
+                try:
+                    if not isinstance(obj, int):
+                        obj.close()
+                    elif obj >= 0:
+                        os.close(obj)
+                except OSError as ex:
+                    LOGGER.warning("os.close ex=%r", ex, stack_info=True)
         finally:
             if isinstance(open_fds, (list, set)):
                 open_fds.clear()
-- 
2.43.0


From b86a44bd33c0506fc413ee87f0578773d7d58c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:54 +0000
Subject: [PATCH 06/40] fix: withdraw the task cancellation requested by a
 run's own timeout

---
 shellous/runner.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/shellous/runner.py b/shellous/runner.py
index 705531a..63613b1 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -788,6 +788,12 @@ class Runner:
         self._timer = None
         main_task.cancel()
 
+    def _uncancel_timeout(self):
+        "Withdraw the cancellation that was requested by the expired timer."
+        task = asyncio.current_task()
+        if task is not None and sys.version_info >= (3, 11):
+            task.uncancel()
+
     def _stop_timer(self):
         if self._timer:
             self._timer.cancel()
@@ -875,6 +881,8 @@ class Runner:
         finally:
             self._stop_timer()  # failsafe just in case
             self._audit_callback("stop")
+        if self._cancelled and self._timed_out:
+            self._uncancel_timeout()
         # If `timeout` expired, raise TimeoutError rather than CancelledError.
         if (
             self._cancelled
-- 
2.43.0


From 3358abdbdf9edae4bcb5d17795faface0042f78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:54 +0000
Subject: [PATCH 07/40] fix: prompt() must not swallow a task cancellation

---
 shellous/command.py  | 3 +++
 shellous/pipeline.py | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/shellous/command.py b/shellous/command.py
index 2b896a2..348599c 100644
--- a/shellous/command.py
+++ b/shellous/command.py
@@ -704,6 +704,9 @@ class Command(Generic[_RT]):
                 )
                 yield cli
                 cli.close()
+            # The async generator must not swallow a cancellation.
+            if run.cancelled and not cmd.options._catch_cancelled_error:
+                raise asyncio.CancelledError()
         finally:
             if cli is not None:
                 cli._finish_()  # pyright: ignore[reportPrivateUsage]
diff --git a/shellous/pipeline.py b/shellous/pipeline.py
index 7f5b608..0de8453 100644
--- a/shellous/pipeline.py
+++ b/shellous/pipeline.py
@@ -1,5 +1,6 @@
 "Implements support for Pipelines."
 
+import asyncio
 import contextlib
 import dataclasses
 import re
@@ -137,6 +138,9 @@ class Pipeline(Generic[_RT]):
                 )
                 yield cli
                 cli.close()
+            # The async generator must not swallow a cancellation.
+            if run._cancelled and not cmd.options._catch_cancelled_error:
+                raise asyncio.CancelledError()
         finally:
             if cli is not None:
                 cli._finish_()  # pyright: ignore[reportPrivateUsage]
-- 
2.43.0


From 7d4676a8abdb40294073c83a001136ea1073a304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:19 +0000
Subject: [PATCH 08/40] fix: a second cancellation must not interrupt the
 process launch

---
 shellous/util.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/shellous/util.py b/shellous/util.py
index 8f8aa59..20441fa 100644
--- a/shellous/util.py
+++ b/shellous/util.py
@@ -144,8 +144,14 @@ async def uninterrupted(coro: Coroutine[Any, Any, _T]) -> _T:
         return await asyncio.shield(task)
 
     except asyncio.CancelledError:
+        # Don't let another cancellation interrupt `task` either.
+        while not task.done():
+            try:
+                await asyncio.wait([task])
+            except asyncio.CancelledError:
+                pass
         if not task.cancelled():
-            await task
+            task.result()
         raise
 
 
-- 
2.43.0


From eb6701b4afb254dd11296f906c181ca0afd91edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:19 +0000
Subject: [PATCH 09/40] fix: tearing down a pipeline cancels each member once,
 so cancel_timeout is honoured

---
 shellous/harvest.py | 8 ++++++--
 shellous/runner.py  | 9 ++++++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/shellous/harvest.py b/shellous/harvest.py
index 0e71288..81c33a7 100644
--- a/shellous/harvest.py
+++ b/shellous/harvest.py
@@ -52,6 +52,7 @@ async def harvest_results(
     timeout: Optional[float] = None,
     cancel_timeout: float = _CANCEL_TIMEOUT,
     trustee: Any = None,
+    return_when: str = asyncio.FIRST_EXCEPTION,
 ) -> tuple[bool, list[Any]]:
     """Run a bunch of awaitables as tasks and return (cancelled, results).
 
@@ -65,7 +66,8 @@ async def harvest_results(
 
     Similar to `asyncio.gather` with `return_exceptions` with one difference:
     If an awaitable raises an exception, the other awaitables are immediately
-    cancelled and consumed before returning any results.
+    cancelled and consumed before returning any results. Set `return_when` to
+    `asyncio.ALL_COMPLETED` to let the other awaitables finish instead.
 
     Set `timeout` to specify a timeout in seconds. When the timeout expires,
     all awaitables are cancelled and consumed before raising a
@@ -82,6 +84,7 @@ async def harvest_results(
             timeout=timeout,
             cancel_timeout=cancel_timeout,
             trustee=trustee,
+            return_when=return_when,
         )
     except asyncio.CancelledError:
         cancelled = True
@@ -95,6 +98,7 @@ async def harvest_wait(
     cancel_timeout: float = _CANCEL_TIMEOUT,
     cancel_finish: bool = False,
     trustee: Any = None,
+    return_when: str = asyncio.FIRST_EXCEPTION,
 ) -> None:
     """Wait for tasks to finish or raise an exception.
 
@@ -117,7 +121,7 @@ async def harvest_wait(
         done, pending = await asyncio.wait(
             tasks,
             timeout=timeout,
-            return_when=asyncio.FIRST_EXCEPTION,
+            return_when=return_when,
         )
 
         # Determine whether asyncio.wait timed out.
diff --git a/shellous/runner.py b/shellous/runner.py
index 63613b1..10e955a 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -1105,12 +1105,19 @@ class PipeRunner:
         "Wait for pipeline to finish."
         assert self._results is None
 
+        return_when = asyncio.FIRST_EXCEPTION
         if kill:
             LOGGER.debug("PipeRunner.wait killing pipe %r", self)
             for task in self._tasks:
                 task.cancel()
+            # Cancelling a task again would cut its `cancel_timeout` short.
+            return_when = asyncio.ALL_COMPLETED
 
-        cancelled, self._results = await harvest_results(*self._tasks, trustee=self)
+        cancelled, self._results = await harvest_results(
+            *self._tasks,
+            trustee=self,
+            return_when=return_when,
+        )
         if cancelled:
             self._cancelled = True
         self._tasks.clear()  # clear all tasks when done
-- 
2.43.0


From 327c2132d5828b4ccf7216a94aab2225779afe76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:19 +0000
Subject: [PATCH 10/40] fix: report the original error when a pipeline's pipes
 can't be created

---
 shellous/runner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 10e955a..609f074 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -1131,7 +1131,8 @@ class PipeRunner:
             LOGGER.warning("PipeRunner enter %r ex=%r", self, ex)
             if _is_cancelled(ex):
                 self._cancelled = True
-            await self._wait(kill=True)
+            if self._tasks:
+                await self._wait(kill=True)
             raise
 
     @log_method(LOG_DETAIL)
-- 
2.43.0


From 5e3e520130ab9f2ccb4d26283c62c2af5ff7d3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:19 +0000
Subject: [PATCH 11/40] fix: accept an open file as standard input, as
 documented

---
 shellous/runner.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/shellous/runner.py b/shellous/runner.py
index 609f074..72fbfb9 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -285,6 +285,11 @@ class _RunOptions:
             # Shellous-supported input classes.
             assert stdin == asyncio.subprocess.PIPE
             assert input_bytes is None
+        elif isinstance(input_, io.IOBase):
+            # Client-managed File-like object.
+            stdin = input_
+            if close:
+                self.open_fds.append(stdin)
         else:
             raise TypeError(f"unsupported input type: {input_!r}")
 
-- 
2.43.0


From 5fd2923ca48d65d1221f5c5dd5230f1cf3df30f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:19 +0000
Subject: [PATCH 12/40] fix: close the command's descriptors when its audit
 callback refuses the start

---
 shellous/runner.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 72fbfb9..e3eef2d 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -630,7 +630,11 @@ class Runner:
     @log_method(LOG_DETAIL)
     async def __aenter__(self):
         "Set up redirections and launch subprocess."
-        self._audit_callback("start")
+        try:
+            self._audit_callback("start")
+        except BaseException:
+            _cleanup(self.command)
+            raise
         try:
             return await self._start()
         except BaseException as ex:
-- 
2.43.0


From c3deb410dbf66cb3dc58a8e85d37556cf6ff5e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:20 +0000
Subject: [PATCH 13/40] fix: async iteration must not swallow a task
 cancellation

---
 shellous/command.py  | 3 +++
 shellous/pipeline.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/shellous/command.py b/shellous/command.py
index 348599c..a1f68a7 100644
--- a/shellous/command.py
+++ b/shellous/command.py
@@ -737,6 +737,9 @@ class Command(Generic[_RT]):
         async with Runner(self) as run:
             async for line in run:
                 yield line
+        # The async generator must not swallow a cancellation.
+        if run.cancelled and not self.options._catch_cancelled_error:
+            raise asyncio.CancelledError()
 
     def __call__(self, *args: Any) -> "Command[_RT]":
         "Apply more arguments to the end of the command."
diff --git a/shellous/pipeline.py b/shellous/pipeline.py
index 0de8453..48a5923 100644
--- a/shellous/pipeline.py
+++ b/shellous/pipeline.py
@@ -244,3 +244,6 @@ class Pipeline(Generic[_RT]):
         async with PipeRunner(self, capturing=True) as run:
             async for line in run:
                 yield line
+        # The async generator must not swallow a cancellation.
+        if run._cancelled and not self.options._catch_cancelled_error:
+            raise asyncio.CancelledError()
-- 
2.43.0


From ed87eb5063737d212c90e357f0089a33f74df9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:49 +0000
Subject: [PATCH 14/40] fix: iterating over a pipeline reports a command that
 failed to launch

---
 shellous/pipeline.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shellous/pipeline.py b/shellous/pipeline.py
index 48a5923..5494873 100644
--- a/shellous/pipeline.py
+++ b/shellous/pipeline.py
@@ -247,3 +247,5 @@ class Pipeline(Generic[_RT]):
         # The async generator must not swallow a cancellation.
         if run._cancelled and not self.options._catch_cancelled_error:
             raise asyncio.CancelledError()
+        # Report a command that failed to run.
+        run.result(check=False)
-- 
2.43.0


From db8db39147eb035453ddbe6667ef0f1f6670732a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:49 +0000
Subject: [PATCH 15/40] fix: prompt() must not mask an exception when there is
 no result

---
 shellous/prompt.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/shellous/prompt.py b/shellous/prompt.py
index 21e45af..15c1ccf 100644
--- a/shellous/prompt.py
+++ b/shellous/prompt.py
@@ -415,7 +415,10 @@ class Prompt:
 
     def _finish_(self) -> None:
         "Internal method called when process exits to fetch the `Result` and cache it."
-        self._result = self._runner.result(check=False)
+        run = self._runner
+        if (run.returncode if isinstance(run, Runner) else run._results) is None:
+            return  # There is no result; don't mask the exception being raised.
+        self._result = run.result(check=False)
         if LOG_PROMPT:
             LOGGER.info(
                 "Prompt[pid=%s]: --- END --- result=%r",
-- 
2.43.0


From 18ec4f04014088cc59f0a9c6be8be8f2d872945c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:59 +0000
Subject: [PATCH 16/40] fix: EPollStrategy closes its descriptors when
 registration or start-up fails

---
 shellous/watcher.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/shellous/watcher.py b/shellous/watcher.py
index 36f3cf6..b25ab66 100644
--- a/shellous/watcher.py
+++ b/shellous/watcher.py
@@ -266,15 +266,21 @@ class EPollStrategy(ChildStrategy):
         _check_sigchld()
         self._pidfds = {}  # pidfd -> (pid, callback, args)
         self._epoll = select.epoll()
-        self._selfpipe = os.pipe()
-        self._epoll.register(self._selfpipe[0], select.EPOLLIN)
-        self._tasks = _TaskSet()
-        self._thread = threading.Thread(
-            target=self._run,
-            name="EPollStrategy.run",
-            daemon=True,
-        )
-        self._thread.start()
+        self._selfpipe = None
+        try:
+            self._selfpipe = os.pipe()
+            self._epoll.register(self._selfpipe[0], select.EPOLLIN)
+            self._tasks = _TaskSet()
+            self._thread = threading.Thread(
+                target=self._run,
+                name="EPollStrategy.run",
+                daemon=True,
+            )
+            self._thread.start()
+        except Exception:
+            self._epoll.close()
+            close_fds(self._selfpipe or ())
+            raise
 
     def close(self) -> None:
         "Tell the epoll thread to exit."
@@ -356,7 +362,12 @@ class EPollStrategy(ChildStrategy):
         pidfd = os.pidfd_open(pid, 0)
         self._pidfds[pidfd] = (pid, callback, args)  # ATOMIC: self._pidfds[]
 
-        self._epoll.register(pidfd, select.EPOLLIN)
+        try:
+            self._epoll.register(pidfd, select.EPOLLIN)
+        except Exception:
+            del self._pidfds[pidfd]
+            os.close(pidfd)
+            raise
         LOGGER.debug("_add_pidfd registered pidfd=%r pid=%r", pidfd, pid)
 
     def _remove_pidfd(self, pidfd: int):
-- 
2.43.0


From 9f72835fe16801467389a97c560e0440a4e958fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:35 +0000
Subject: [PATCH 17/40] fix: a process that can't be watched is killed and
 reaped

---
 shellous/watcher.py | 66 ++++++++++++++++++++++++---------------------
 1 file changed, 36 insertions(+), 30 deletions(-)

diff --git a/shellous/watcher.py b/shellous/watcher.py
index b25ab66..abb8015 100644
--- a/shellous/watcher.py
+++ b/shellous/watcher.py
@@ -61,11 +61,13 @@ class DefaultChildWatcher(
 
     _strategy: Optional[ChildStrategy]
     _lock: threading.Lock
+    _tasks: "_TaskSet"
 
     def __init__(self, *, thread_strategy: bool = False):
         "Initialize child watcher."
         self._strategy = None
         self._lock = threading.Lock()
+        self._tasks = _TaskSet()
 
         if thread_strategy:
             # Force use of ThreadStrategy for coverage test.
@@ -85,12 +87,19 @@ class DefaultChildWatcher(
 
         Note: callback() must be thread-safe.
         """
-        if not self._strategy:  # ATOMIC: self._strategy
-            with self._lock:
-                self._init_strategy()
-            assert self._strategy is not None  # (pyright)
+        try:
+            if not self._strategy:  # ATOMIC: self._strategy
+                with self._lock:
+                    self._init_strategy()
+                assert self._strategy is not None  # (pyright)
 
-        self._strategy.watch_pid(pid, callback, args)  # ATOMIC: self._strategy
+            self._strategy.watch_pid(pid, callback, args)  # ATOMIC: self._strategy
+
+        except (OSError, RuntimeError) as ex:
+            # Don't leave behind a running process that nothing is watching.
+            LOGGER.warning("add_child_handler failed pid=%r ex=%r", pid, ex)
+            self._kill_pid(pid, callback, args)
+            raise
 
     def remove_child_handler(self, pid: int) -> bool:
         """Removes the handler for process 'pid'.
@@ -137,6 +146,22 @@ class DefaultChildWatcher(
     def __exit__(self, *_args: Any) -> None:
         """Exit the watcher's context"""
 
+    def _kill_pid(
+        self,
+        pid: int,
+        callback: _CallbackType,
+        args: _CallbackArgsType,
+    ):
+        """Handle case where the process can't be watched.
+
+        This can happen if we run out of file descriptors (EMFILE) or threads.
+        """
+        try:
+            os.kill(pid, signal.SIGKILL)
+        except ProcessLookupError:
+            pass
+        self._tasks.create_task(_poll_dead_pid(pid, callback, args))
+
     def _init_strategy(self):
         "Construct child watcher strategy."
         if self._strategy:
@@ -258,7 +283,6 @@ class EPollStrategy(ChildStrategy):
     _pidfds: dict[int, tuple[int, _CallbackType, _CallbackArgsType]]
     _epoll: "select.epoll"
     _selfpipe: Optional[tuple[int, int]]
-    _tasks: "_TaskSet"
     _thread: threading.Thread
 
     def __init__(self):
@@ -270,7 +294,6 @@ class EPollStrategy(ChildStrategy):
         try:
             self._selfpipe = os.pipe()
             self._epoll.register(self._selfpipe[0], select.EPOLLIN)
-            self._tasks = _TaskSet()
             self._thread = threading.Thread(
                 target=self._run,
                 name="EPollStrategy.run",
@@ -295,28 +318,7 @@ class EPollStrategy(ChildStrategy):
         args: _CallbackArgsType,
     ) -> None:
         "Register a PID with epoll."
-        try:
-            self._add_pidfd(pid, callback, args)
-        except Exception as ex:
-            LOGGER.warning("EPollStrategy.watch_pid failed pid=%r ex=%r", pid, ex)
-            self._pidfd_error(pid, callback, args)
-            raise
-
-    def _pidfd_error(
-        self,
-        pid: int,
-        callback: _CallbackType,
-        args: _CallbackArgsType,
-    ):
-        """Handle case where pidfd_open fails with any error.
-
-        This can happen if the process runs out of file descriptors (EMFILE).
-        """
-        try:
-            os.kill(pid, signal.SIGKILL)
-        except ProcessLookupError:
-            pass
-        self._tasks.create_task(_poll_dead_pid(pid, callback, args))
+        self._add_pidfd(pid, callback, args)
 
     @log_thread(LOG_DETAIL)
     def _run(self):
@@ -410,7 +412,11 @@ class ThreadStrategy(ChildStrategy):
             daemon=True,
         )
         self._pids[pid] = thread
-        thread.start()
+        try:
+            thread.start()
+        except RuntimeError:
+            del self._pids[pid]
+            raise
 
     @log_thread(LOG_DETAIL)
     def _reap_pid(
-- 
2.43.0


From f661a039e25ae87bae0916cfe37b2cbc94867780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:35 +0000
Subject: [PATCH 18/40] fix: withdraw the timeout's cancellation also when the
 run ends with another exception

---
 shellous/runner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index e3eef2d..c18d092 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -889,9 +889,9 @@ class Runner:
             self._set_cancelled()
         finally:
             self._stop_timer()  # failsafe just in case
+            if self._timed_out:
+                self._uncancel_timeout()
             self._audit_callback("stop")
-        if self._cancelled and self._timed_out:
-            self._uncancel_timeout()
         # If `timeout` expired, raise TimeoutError rather than CancelledError.
         if (
             self._cancelled
-- 
2.43.0


From d2eab365ea5b776c4484239cd8edf81c28ea39b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:09 +0000
Subject: [PATCH 19/40] fix: harvest_wait must not swallow a cancellation that
 arrives while it collects pending tasks

---
 shellous/harvest.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/shellous/harvest.py b/shellous/harvest.py
index 81c33a7..c9349a4 100644
--- a/shellous/harvest.py
+++ b/shellous/harvest.py
@@ -147,8 +147,10 @@ async def harvest_wait(
         _consume_exceptions(tasks)
         raise
 
-    if pending:
-        await _cancel_wait(pending, trustee, cancel_timeout)
+    if pending and not await _cancel_wait(pending, trustee, cancel_timeout):
+        # We were cancelled while the pending tasks finished.
+        _consume_exceptions(tasks)
+        raise asyncio.CancelledError()
 
     assert all(task.done() for task in tasks)
 
@@ -164,8 +166,11 @@ async def _cancel_wait(
     trustee: Any,
     cancel_timeout: float,
     cancel_finish: bool = False,
-):
-    "Cancel tasks and wait for them to finish."
+) -> bool:
+    """Cancel tasks and wait for them to finish.
+
+    Return False if the wait was itself cancelled.
+    """
     try:
         if not cancel_finish:
             # Cancel all tasks.
@@ -173,11 +178,13 @@ async def _cancel_wait(
                 task.cancel()
 
         await _cancel_waiter(tasks, trustee, cancel_timeout)
+        return True
 
     except asyncio.CancelledError:
         # Retry once if _cancel_wait is itself cancelled.
         LOGGER.warning("Harvest._cancel_wait cancelled itself trustee=%r", trustee)
         await _cancel_waiter(tasks, trustee, cancel_timeout)
+        return False
 
 
 async def _cancel_waiter(
-- 
2.43.0


From 7b21f2b349d0c7ba7bb51ab01f898c370077de19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:42 +0000
Subject: [PATCH 20/40] fix: expect() keeps the text in the pending buffer when
 cancelled after a match

---
 shellous/prompt.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shellous/prompt.py b/shellous/prompt.py
index 15c1ccf..fe29075 100644
--- a/shellous/prompt.py
+++ b/shellous/prompt.py
@@ -323,6 +323,10 @@ class Prompt:
             timeout=timeout or self._default_timeout,
         )
         if cancelled:
+            if isinstance(result, tuple):
+                # The pattern matched just before we were cancelled.
+                text, found = result
+                self._pending = text + found[0] + self._pending
             raise asyncio.CancelledError()
         if isinstance(result, Exception):
             raise result
-- 
2.43.0


From 8395cd9e36de263237353accf9d14a6403d1a595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:23 +0000
Subject: [PATCH 21/40] fix: harvest_wait must collect its tasks however often
 it is cancelled

---
 shellous/harvest.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/shellous/harvest.py b/shellous/harvest.py
index c9349a4..87b881d 100644
--- a/shellous/harvest.py
+++ b/shellous/harvest.py
@@ -171,20 +171,20 @@ async def _cancel_wait(
 
     Return False if the wait was itself cancelled.
     """
-    try:
-        if not cancel_finish:
-            # Cancel all tasks.
-            for task in tasks:
-                task.cancel()
-
-        await _cancel_waiter(tasks, trustee, cancel_timeout)
-        return True
+    if not cancel_finish:
+        # Cancel all tasks.
+        for task in tasks:
+            task.cancel()
 
-    except asyncio.CancelledError:
-        # Retry once if _cancel_wait is itself cancelled.
-        LOGGER.warning("Harvest._cancel_wait cancelled itself trustee=%r", trustee)
-        await _cancel_waiter(tasks, trustee, cancel_timeout)
-        return False
+    cancelled = False
+    while True:
+        try:
+            await _cancel_waiter(tasks, trustee, cancel_timeout)
+            return not cancelled
+        except asyncio.CancelledError:
+            # Retry if _cancel_wait is itself cancelled.
+            LOGGER.warning("Harvest._cancel_wait cancelled itself trustee=%r", trustee)
+            cancelled = True
 
 
 async def _cancel_waiter(
-- 
2.43.0


From 8d829dcc3e856e5ab21bf347f0d58d1ac053da02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:56 +0000
Subject: [PATCH 22/40] fix: a cancellation while waiting for a killed process
 must not leave it unreaped

---
 shellous/runner.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index c18d092..6012de8 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -618,7 +618,13 @@ class Runner:
 
         try:
             self._signal(None)
-            await harvest(self._waiter(), timeout=_KILL_TIMEOUT, trustee=self)
+            await harvest(
+                self._waiter(),
+                timeout=_KILL_TIMEOUT,
+                cancel_timeout=_KILL_TIMEOUT,
+                cancel_finish=True,  # a cancellation must not leave it behind
+                trustee=self,
+            )
         except asyncio.TimeoutError as ex:
             # Manually check if the process is still running.
             if poll_wait_pid(self._proc):
-- 
2.43.0


From e940eaf7e48d084b6efc79080357ae799e64defc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:47 +0000
Subject: [PATCH 23/40] fix: a pipeline's prompt() must not replace the
 caller's exception with a command's

---
 shellous/pipeline.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/shellous/pipeline.py b/shellous/pipeline.py
index 5494873..36a26e4 100644
--- a/shellous/pipeline.py
+++ b/shellous/pipeline.py
@@ -141,9 +141,14 @@ class Pipeline(Generic[_RT]):
             # The async generator must not swallow a cancellation.
             if run._cancelled and not cmd.options._catch_cancelled_error:
                 raise asyncio.CancelledError()
-        finally:
+        except BaseException:
             if cli is not None:
-                cli._finish_()  # pyright: ignore[reportPrivateUsage]
+                # Don't mask the exception with a command's own exception.
+                with contextlib.suppress(Exception):
+                    cli._finish_()  # pyright: ignore[reportPrivateUsage]
+            raise
+        if cli is not None:
+            cli._finish_()  # pyright: ignore[reportPrivateUsage]
 
     def _add(self, item: Union["shellous.Command[Any]", "Pipeline[Any]"]):
         if isinstance(item, shellous.Command):
-- 
2.43.0


From d558ea02296cdfd3e659c7fd9376d1c59d9746cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:44 +0000
Subject: [PATCH 24/40] fix: input that a killed process left unread must not
 keep its pipe open

---
 shellous/runner.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 6012de8..5f7d49f 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -954,12 +954,21 @@ class Runner:
             # will raise a BrokenPipeError if not all input was properly written.
             if self._proc.stdin is not None:
                 self._proc.stdin.close()
-                await harvest(
-                    self._proc.stdin.wait_closed(),
-                    timeout=_CLOSE_TIMEOUT,
-                    cancel_finish=True,  # finish `wait_closed` if cancelled
-                    trustee=self,
+                # Input that nobody reads keeps the pipe open; a descendant of
+                # the process may still hold its other end. Discard the input,
+                # because cancelling `wait_closed` leaves the pipe open.
+                timer = asyncio.get_running_loop().call_later(
+                    _CLOSE_TIMEOUT, self._abort_stdin
                 )
+                try:
+                    await harvest(
+                        self._proc.stdin.wait_closed(),
+                        timeout=_CLOSE_TIMEOUT * 2,
+                        cancel_finish=True,  # finish `wait_closed` if cancelled
+                        trustee=self,
+                    )
+                finally:
+                    timer.cancel()
 
         except asyncio.TimeoutError:
             LOGGER.critical("Runner._close %r timeout stdin=%r", self, self._proc.stdin)
@@ -971,6 +980,14 @@ class Runner:
                 raise
             LOGGER.debug("Runner._close %r ex=%r", self, ex)
 
+    def _abort_stdin(self):
+        "Close standard input without writing what is left in its buffer."
+        assert self._proc is not None and self._proc.stdin is not None
+        transport = self._proc.stdin.transport
+        if transport.get_write_buffer_size() > 0:
+            LOGGER.warning("Runner._close %r abort %r", self, transport)
+            transport.abort()
+
     def _audit_callback(
         self,
         phase: str,
-- 
2.43.0


From 135b280941a068a3b6e390b75de51e4978cdbf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:50 +0000
Subject: [PATCH 25/40] fix: with a pty, stderr redirected to STDOUT follows a
 redirected stdout

---
 shellous/runner.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 5f7d49f..24ceb0b 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -375,9 +375,8 @@ class _RunOptions:
 
         if stdout == asyncio.subprocess.PIPE:
             stdout = child_fd
-
-        if stderr == asyncio.subprocess.STDOUT:
-            stderr = child_fd
+            if stderr == asyncio.subprocess.STDOUT:
+                stderr = child_fd
 
         ttyname = os.ttyname(child_fd)
         return stdin, stdout, stderr, lambda: pty_util.set_ctty(ttyname)
-- 
2.43.0


From b2a76e327be9c886333fee85975a2652b2cdfaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:44 +0000
Subject: [PATCH 26/40] fix: a pipeline's pty output must not be cut off when
 the process exits

---
 shellous/pty_util.py | 12 ++++++++++--
 shellous/runner.py   | 11 +++++++++++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/shellous/pty_util.py b/shellous/pty_util.py
index bbcde5d..c874078 100644
--- a/shellous/pty_util.py
+++ b/shellous/pty_util.py
@@ -54,12 +54,15 @@ class PtyFds(NamedTuple):
     eof: bytes
     reader: Optional[asyncio.StreamReader] = None
     writer: Optional[asyncio.StreamWriter] = None
+    reader_closed: Optional[asyncio.Event] = None
 
     @log_method(LOG_DETAIL)
     async def open_streams(self) -> "PtyFds":
         "Open pty reader/writer streams."
         try:
-            reader, writer = await _open_pty_streams(self.parent_fd, self.child_fd)
+            reader, writer, reader_closed = await _open_pty_streams(
+                self.parent_fd, self.child_fd
+            )
         except BaseException:
             self.child_fd.close()
             raise
@@ -69,6 +72,7 @@ class PtyFds(NamedTuple):
             self.eof,
             reader,
             writer,
+            reader_closed,
         )
 
     def close(self) -> None:
@@ -116,6 +120,7 @@ class PtyStreamReaderProtocol(asyncio.StreamReaderProtocol):
 
     pty__child_fd: Optional[ChildFd] = None
     pty__timer: Optional[asyncio.TimerHandle] = None  # Issue #378
+    pty__closed: Optional[asyncio.Event] = None  # set when connection is lost
 
     def connection_lost(self, exc: Optional[Exception]) -> None:
         "Intercept EIO error and treat it as EOF."
@@ -125,6 +130,8 @@ class PtyStreamReaderProtocol(asyncio.StreamReaderProtocol):
             self.pty__timer.cancel()
         if isinstance(exc, OSError) and exc.errno == errno.EIO:
             exc = None
+        if self.pty__closed is not None:
+            self.pty__closed.set()
         super().connection_lost(exc)
 
     if BSD_DERIVED:
@@ -165,6 +172,7 @@ async def _open_pty_streams(parent_fd: int, child_fd: ChildFd):
     # Stick reference to child_fd into protocol so we can close it after the
     # first data is received on BSD systems.
     reader_protocol.pty__child_fd = child_fd
+    reader_protocol.pty__closed = reader_closed = asyncio.Event()
 
     # The writer's file object owns `parent_fd`.
     writer_file = os.fdopen(parent_fd, "wb", 0, closefd=True)
@@ -197,7 +205,7 @@ async def _open_pty_streams(parent_fd: int, child_fd: ChildFd):
 
     writer_transport.close, _orig_close = _close, writer_transport.close
 
-    return reader, writer
+    return reader, writer, reader_closed
 
 
 def raw(rows: int = 0, cols: int = 0) -> PtyAdapter:
diff --git a/shellous/runner.py b/shellous/runner.py
index 24ceb0b..df16435 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -765,6 +765,16 @@ class Runner:
                     **opts.kwd_args,
                 )
 
+    def _add_pty_eof_task(self):
+        """Add a task that waits until the pty's output is read completely.
+
+        A pipe isn't closed before its reader reaches EOF. When another task
+        reads from a pty, don't close the pty as soon as the process exits.
+        """
+        pty_fds = self._options.pty_fds
+        if pty_fds and pty_fds.reader_closed and not self._is_bsd_pty():
+            self.add_task(pty_fds.reader_closed.wait(), "pty-eof")
+
     @log_method(LOG_DETAIL)
     async def _waiter(self):
         "Run task that waits for process to exit."
@@ -1041,6 +1051,7 @@ class Runner:
             if _run_future is not None:
                 # Return streams to caller in another task.
                 _run_future.set_result(run)
+                run._add_pty_eof_task()
 
         result = run.result()
         if command.options._return_result:
-- 
2.43.0


From c5c14d21afea04390af50442a3310344ca17e071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:11 +0000
Subject: [PATCH 27/40] fix: an error while sending to a prompt must not be
 replaced by the end of its reader

---
 shellous/prompt.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/shellous/prompt.py b/shellous/prompt.py
index fe29075..bd827c4 100644
--- a/shellous/prompt.py
+++ b/shellous/prompt.py
@@ -512,7 +512,13 @@ class Prompt:
         finally:
             if not read_task.done():
                 read_task.cancel()
-                await read_task
+            # The end of `read_task` must not replace an exception from `drain`.
+            await asyncio.wait([read_task])
+            read_error = None if read_task.cancelled() else read_task.exception()
+
+        # An OSError is raised again by the next read.
+        if read_error is not None and not isinstance(read_error, OSError):
+            raise read_error
 
     async def _read_some(
         self,
-- 
2.43.0


From e52d3e99de616d64f6d99a31acb7860933facda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:27 +0000
Subject: [PATCH 28/40] fix: harvest with ALL_COMPLETED reports its timeout
 also when an awaitable has failed

---
 shellous/harvest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shellous/harvest.py b/shellous/harvest.py
index 87b881d..6a03c4c 100644
--- a/shellous/harvest.py
+++ b/shellous/harvest.py
@@ -130,7 +130,7 @@ async def harvest_wait(
             time_expired = True
         elif pending:
             # No tasks in `done` finished with an exception.
-            time_expired = not any(
+            time_expired = return_when == asyncio.ALL_COMPLETED or not any(
                 task.exception() for task in done if not task.cancelled()
             )
 
-- 
2.43.0


From 2cefaa34d598e742e604a690295b1f0d1d420eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:50 +0000
Subject: [PATCH 29/40] fix: ThreadStrategy accepts a reused pid as soon as the
 old process is reaped

---
 shellous/watcher.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/shellous/watcher.py b/shellous/watcher.py
index abb8015..8173531 100644
--- a/shellous/watcher.py
+++ b/shellous/watcher.py
@@ -383,16 +383,18 @@ class ThreadStrategy(ChildStrategy):
 
     # pylint: disable=super-init-not-called
 
-    _pids: dict[int, threading.Thread]
+    _threads: set[threading.Thread]
 
     def __init__(self):
         "Initialize strategy."
-        self._pids = {}  # pid -> Thread
+        # Threads are not keyed by pid; a pid may be reused by a new process
+        # as soon as the thread has collected the old one's exit status.
+        self._threads = set()
 
     def close(self) -> None:
         """There is no way to force-close the threads. Log a message if there
         are still any live threads."""
-        threads = list(self._pids.values())
+        threads = list(self._threads)  # ATOMIC: list(self._threads)
         live_threads = [thread.name for thread in threads if thread.is_alive()]
         if live_threads:
             LOGGER.warning("ThreadStrategy: Child processes exist: %r", live_threads)
@@ -404,18 +406,17 @@ class ThreadStrategy(ChildStrategy):
         args: _CallbackArgsType,
     ) -> None:
         "Start a thread to watch the PID."
-        assert pid not in self._pids
         thread = threading.Thread(
             target=self._reap_pid,
             args=(pid, callback, args),
             name=f"ThreadStrategy.reap_pid-{pid}",
             daemon=True,
         )
-        self._pids[pid] = thread
+        self._threads.add(thread)
         try:
             thread.start()
         except RuntimeError:
-            del self._pids[pid]
+            self._threads.discard(thread)
             raise
 
     @log_thread(LOG_DETAIL)
@@ -432,7 +433,7 @@ class ThreadStrategy(ChildStrategy):
         else:
             LOGGER.critical("_reap_pid: process still running pid=%r", pid)
 
-        self._pids.pop(pid)
+        self._threads.discard(threading.current_thread())
 
 
 def _check_sigchld():
-- 
2.43.0


From bf5bbb607ab99a2a395a5f50a1f75d0d24c4fe11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:21 +0000
Subject: [PATCH 30/40] fix: a pipeline's captured output must not be cut off
 when the process has exited early

---
 shellous/runner.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/shellous/runner.py b/shellous/runner.py
index df16435..91dc7a5 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -775,6 +775,25 @@ class Runner:
         if pty_fds and pty_fds.reader_closed and not self._is_bsd_pty():
             self.add_task(pty_fds.reader_closed.wait(), "pty-eof")
 
+    def _add_output_eof_task(self):
+        "Add a task that waits until the captured output is read completely."
+        if self.stdout or self.stderr:
+            self.add_task(self._wait_output(), "output-eof")
+
+    async def _wait_output(self):
+        """Wait for the process to exit and its output pipes to reach EOF.
+
+        When the process has already exited, `wait` doesn't wait for the task
+        that reads from the pipes.
+        """
+        assert self._proc
+        await self._proc.wait()
+
+        for fdesc in (1, 2):
+            pipe = self._proc._transport.get_pipe_transport(fdesc)  # pyright: ignore
+            while pipe is not None and not pipe.is_closing():
+                await asyncio.sleep(0.025)
+
     @log_method(LOG_DETAIL)
     async def _waiter(self):
         "Run task that waits for process to exit."
@@ -1052,6 +1071,7 @@ class Runner:
                 # Return streams to caller in another task.
                 _run_future.set_result(run)
                 run._add_pty_eof_task()
+                run._add_output_eof_task()
 
         result = run.result()
         if command.options._return_result:
-- 
2.43.0


From f0361fc980f11cc6d0c61c2093e0ca329afe0f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:03 +0000
Subject: [PATCH 31/40] fix: a cancellation while waiting for a killed process
 must not turn into RuntimeError

---
 shellous/runner.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 91dc7a5..8cf07d4 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -624,13 +624,16 @@ class Runner:
                 cancel_finish=True,  # a cancellation must not leave it behind
                 trustee=self,
             )
-        except asyncio.TimeoutError as ex:
+        except (asyncio.TimeoutError, RuntimeError) as ex:
             # Manually check if the process is still running.
             if poll_wait_pid(self._proc):
                 LOGGER.warning("%r process reaped manually %r", self, self._proc)
             else:
                 LOGGER.error("%r failed to kill process %r", self, self._proc)
                 raise RuntimeError(f"Unable to kill process {self._proc!r}") from ex
+            if isinstance(ex, RuntimeError):
+                # We were cancelled, but the pipes still didn't close in time.
+                raise asyncio.CancelledError() from ex
 
     @log_method(LOG_DETAIL)
     async def __aenter__(self):
-- 
2.43.0


From da7e249bfe988d44c19a15d9045d013851bc739d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:05 +0000
Subject: [PATCH 32/40] fix: close a descriptor only once when it is given to
 stdout and stderr

---
 shellous/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shellous/util.py b/shellous/util.py
index 20441fa..068d6b0 100644
--- a/shellous/util.py
+++ b/shellous/util.py
@@ -60,7 +60,11 @@ def close_fds(open_fds: Iterable[Union[SupportsClose, int]]) -> None:
     "Close open file descriptors or file objects."
     with log_timer("close_fds"):
         try:
+            closed: list[Any] = []
             for obj in open_fds:
+                if obj in closed:  # close each one only once
+                    continue
+                closed.append(obj)
                 try:
                     if not isinstance(obj, int):
                         obj.close()
-- 
2.43.0


From 33127e5e6fb5b7a2b09dd629f3eafb6f8120c387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:05 +0000
Subject: [PATCH 33/40] fix: harvest_results leaves no exception unretrieved
 when it raises one

---
 shellous/harvest.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shellous/harvest.py b/shellous/harvest.py
index 6a03c4c..e299783 100644
--- a/shellous/harvest.py
+++ b/shellous/harvest.py
@@ -88,6 +88,8 @@ async def harvest_results(
         )
     except asyncio.CancelledError:
         cancelled = True
+    # `_to_result` may raise an exception before it reaches all of the tasks.
+    _consume_exceptions(tasks)
     return cancelled, [_to_result(task) for task in tasks]
 
 
-- 
2.43.0


From 345877bb3e9a436211ef97bde126699cb02a4e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:24 +0000
Subject: [PATCH 34/40] fix: equal environment mappings have equal hashes

---
 shellous/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shellous/util.py b/shellous/util.py
index 068d6b0..9a4beab 100644
--- a/shellous/util.py
+++ b/shellous/util.py
@@ -217,7 +217,8 @@ class EnvironmentDict(abc.Mapping[str, str]):
         return iter(self._data)
 
     def __hash__(self) -> int:
-        return hash(tuple((key, value) for key, value in self._data.items()))
+        # Equality ignores insertion order, so the hash must ignore it too.
+        return hash(frozenset(self._data.items()))
 
     def __eq__(self, rhs: object) -> bool:
         if isinstance(rhs, dict):
-- 
2.43.0


From a64a27ba9fd5991dcc05cc5c100b4434e463a1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:51 +0000
Subject: [PATCH 35/40] fix: close a file object given as output with
 close=True

---
 shellous/runner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shellous/runner.py b/shellous/runner.py
index 8cf07d4..98ffc41 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -340,6 +340,8 @@ class _RunOptions:
             # Client-managed File-like object.
             _set_position(output, append)
             stdout = output
+            if close:
+                self.open_fds.append(stdout)
         else:
             raise TypeError(f"unsupported output type: {output!r}")
 
-- 
2.43.0


From a52a38fd943a2dcd227324d0615fd7829b2ea3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:51 +0000
Subject: [PATCH 36/40] fix: start the timer before the task that stops it

---
 shellous/runner.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 98ffc41..cc65ea2 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -724,13 +724,14 @@ class Runner:
         self.stdout = stdout
         self.stderr = stderr
 
-        # Add a task to monitor for when the process finishes.
-        if not self._is_bsd_pty():
-            self.add_task(self._waiter(), "waiter")
-
         # Set a timer to cancel the current task after a timeout.
         self._start_timer(self.command.options.timeout)
 
+        # Add a task to monitor for when the process finishes. The task stops
+        # the timer; an eager task may do so at once.
+        if not self._is_bsd_pty():
+            self.add_task(self._waiter(), "waiter")
+
         return self
 
     @log_method(LOG_DETAIL)
-- 
2.43.0


From 32b3d2beb36b79e5b03f4731dee4a67a64f9dee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:41 +0000
Subject: [PATCH 37/40] fix: an error of the reader in Prompt.send must not go
 unretrieved when the send is cancelled

---
 shellous/prompt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shellous/prompt.py b/shellous/prompt.py
index bd827c4..3e20472 100644
--- a/shellous/prompt.py
+++ b/shellous/prompt.py
@@ -506,6 +506,8 @@ class Prompt:
         read_task = asyncio.create_task(
             self._read_some(tag="@drain", concurrent_cancel=True)
         )
+        # We may be cancelled ourselves before we get to its exception.
+        read_task.add_done_callback(lambda task: task.cancelled() or task.exception())
         try:
             await stream.drain()
 
-- 
2.43.0


From f7cb02ec7611e78342cb7acf6c31f21bc77a154e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:41 +0000
Subject: [PATCH 38/40] fix: a background task that raises a BaseException must
 not leave the process running

---
 shellous/runner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index cc65ea2..2df33a8 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -546,7 +546,7 @@ class Runner:
             self._tasks.clear()  # all tasks were cancelled
             await self._kill()
 
-        except Exception as ex:
+        except BaseException as ex:
             LOGGER.debug("Runner.wait exited with error %r ex=%r", self, ex)
             self._tasks.clear()  # all tasks were cancelled
             await self._kill()
@@ -589,7 +589,7 @@ class Runner:
                 self._set_cancelled()
             await self._kill_wait()
 
-        except (Exception, GeneratorExit) as ex:
+        except BaseException as ex:
             LOGGER.warning("Runner.kill %r ex=%r", self, ex)
             await self._kill_wait()
             raise
-- 
2.43.0


From 87d85eafe2a43a08b6d997c9d5e404a377377323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:08 +0000
Subject: [PATCH 39/40] fix: only stderr can be captured from a command with a
 pty

---
 shellous/runner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 2df33a8..3aa8256 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -683,7 +683,7 @@ class Runner:
                     error = opts.error_bytes
                     limit = opts.command.options.error_limit
                 elif opts.is_stderr_only:
-                    assert stdout is None
+                    assert stdout is None or opts.pty_fds
                     assert opts.output_bytes is not None
                     error = opts.output_bytes
                 else:
@@ -694,7 +694,7 @@ class Runner:
 
             if stdout is not None:
                 limit = None
-                if opts.output_bytes is not None:
+                if opts.output_bytes is not None and not opts.is_stderr_only:
                     output = opts.output_bytes
                 else:
                     output = opts.command.options.output
-- 
2.43.0


From f3ed2e0a841750f8bf6e4b3e1851c4d943fbd0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:17 +0000
Subject: [PATCH 40/40] fix: AssertionError when a pipeline's commands are
 cancelled before they are launched

---
 shellous/result.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shellous/result.py b/shellous/result.py
index e35e71e..881080c 100644
--- a/shellous/result.py
+++ b/shellous/result.py
@@ -80,6 +80,10 @@ def convert_result_list(
         # Re-raise other exception here.
         raise other_ex[0]
 
+    # A command that was cancelled before it was launched has no result.
+    if any(isinstance(ex, asyncio.CancelledError) for ex in result_list):
+        raise asyncio.CancelledError()
+
     # Everything in result is now either a Result or ResultError.
     key_result = _find_key_result(result_list)
     last = _get_result(result_list[-1])
-- 
2.43.0

