"""Runs one simulated execution of a scenario and collects what happened."""

import asyncio
import gc
import io
import logging
import os
import signal
import subprocess
import sys
import warnings

from . import kernel as kmod
from . import patch

patch.install()

REPO = os.environ.get("SHELLOUS_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import shellous  # noqa: E402
import shellous.runner  # noqa: E402
from shellous import Result, ResultError, sh  # noqa: E402

from . import simloop  # noqa: E402
from .child import payload  # noqa: E402
from .choices import Choices  # noqa: E402
from .kernel import Kernel, SimDeadlock, SimHang, SimLivelock, SimBug  # noqa: E402

if not os.path.realpath(shellous.__file__).startswith(os.path.realpath(REPO)):
    raise SimBug(f"wrong shellous imported: {shellous.__file__}")

warnings.simplefilter("ignore")


class _LogTap(logging.Handler):
    def emit(self, record):
        k = kmod.CURRENT
        if k is not None and not k.dead and record.name.startswith("asyncio"):
            k.probe("asyncio_log")


_tap = _LogTap()
for _name in ("asyncio", "shellous"):
    _lg = logging.getLogger(_name)
    _lg.handlers[:] = [_tap]
    _lg.propagate = False
    _lg.setLevel(logging.WARNING)


class Violation:
    __slots__ = ("props", "kind", "detail")

    def __init__(self, props, kind, detail):
        self.props = tuple(props)
        self.kind = kind
        self.detail = detail

    def sig(self):
        return self.kind

    def __repr__(self):
        return f"{'/'.join(self.props)} {self.kind}: {self.detail}"


class UserError(Exception):
    "Raised by the simulated user's code."


class UserExit(BaseException):
    "The same, but not an `Exception`."


class Rec:
    "What happened to one run."

    def __init__(self, run):
        self.run = run
        self.outcome = None      # ("ok", value) | ("cancelled", None) | ("exc", ex)
        self.task = None
        self.start = None
        self.end = None
        self.done = False
        self.cancels = []        # virtual times of cancel requests by the harness
        self.cancelling = 0
        self.lines = []
        self.history = []        # prompt history
        self.audit = []
        self.procs_at_end = None
        self.sinks = {}
        self.body_exc = None
        self.result = None
        self.run_obj = None
        self.body_started = None
        self.body_ended = None
        self.sub_late = []
        self.result_fn_exc = None
        self.switched_at_end = None
        self.end_stalled = 0.0


class Sim:
    def __init__(self, spec, choices):
        self.spec = spec
        self.k = Kernel(choices, spec.get("kcfg"))
        self.violations = []
        self.recs = []
        self.soft_signals = []   # sent for the caller: (from, until, signal)
        self.user_fds = []       # (fd, ofd_id, policy) policy keep|close
        self.user_objs = []
        self.harness_tasks = set()
        self.hang = None
        self.loop = None
        self.keep = []
        self.finals = []
        self.cleanups = []      # called at the very end: whatever would outlive the run

    def violate(self, props, kind, detail):
        self.violations.append(Violation(props, kind, detail))

    # -------------------------------------------------------------- running
    def execute(self):
        from . import scenario
        k = self.k
        kmod.CURRENT = k
        spec = self.spec
        loopspec = spec.get("loop", {})
        simloop._Hash.state = loopspec.get("hash", 1)
        saved_std = (sys.stdin, sys.stdout, sys.stderr)
        k.tag = "harness"
        k.harness = True
        try:
            for d in spec.get("dirs", ()):
                k.dirs.add(d)
            for path, data, mode, err in spec.get("files", ()):
                k.files[path] = kmod.Node(path, payload(data), mode, err)
            for name, prog in spec.get("programs", {}).items():
                k.programs[name] = prog
                if not prog.get("missing"):
                    k.files[f"/sim/bin/{name}"] = kmod.Node(
                        f"/sim/bin/{name}", b"", 0o644 if prog.get("noexec") else 0o755)
            for sysname, nth, err in spec.get("faults", ()):
                k.fault_plan.setdefault(sysname, {})[nth] = err
            k.thread_errors = []
            watcher = simloop.make_watcher(loopspec.get("watcher", "pidfd"))
            k.watched_by_thread = loopspec.get("watcher", "pidfd") != "pidfd"
            self.watcher = watcher
            policy = simloop.SimPolicy(watcher)
            asyncio.set_event_loop_policy(policy)
            loop = self.loop = simloop.SimLoop()
            asyncio.set_event_loop(loop)
            loop.set_task_factory(
                simloop.eager_factory if loopspec.get("eager") else simloop.task_factory)
            loop.set_debug(bool(loopspec.get("debug")))
            k.tag = "lib"
            k.harness = False
            sys.stdin = patch.SimFileIO(k.std[0], "r", closefd=False)
            sys.stdout = patch.SimFileIO(k.std[1], "w", closefd=False)
            sys.stderr = patch.SimFileIO(k.std[2], "w", closefd=False)
            try:
                self.part = 0
                loop.run_until_complete(scenario.main(self))
                while self.part + 1 < spec.get("loops", 1):
                    # as with several calls of asyncio.run()
                    loop.run_until_complete(loop.shutdown_asyncgens())
                    asyncio.set_event_loop(None)
                    collect()
                    k.tag = "harness"
                    loop.close()
                    unhandled = loop.unhandled
                    loop = self.loop = simloop.SimLoop()
                    loop.unhandled = unhandled
                    asyncio.set_event_loop(loop)
                    loop.set_task_factory(
                        simloop.eager_factory if loopspec.get("eager") else simloop.task_factory)
                    loop.set_debug(bool(loopspec.get("debug")))
                    k.tag = "lib"
                    self.part += 1
                    loop.run_until_complete(scenario.main(self))
            except SimDeadlock as ex:
                self.hang = ("deadlock", str(ex))
            except SimLivelock as ex:
                self.hang = ("livelock", str(ex))
            except SimHang as ex:
                self.hang = ("busy", str(ex))
            k.armed = False
            if self.hang:
                scenario.judge_hang(self)
            else:
                collect()       # exceptions that nobody retrieved are reported now
            for fn in self.finals:
                fn()
            if not self.hang:
                scenario.judge_late(self)
        finally:
            sys.stdin, sys.stdout, sys.stderr = saved_std
            k.armed = False
            self.teardown()
        return self

    def teardown(self):
        k = self.k
        loop = self.loop
        k.max_steps = k.steps + 20000
        k.triggers.clear()
        k.fault_plan.clear()
        k.cfg["stall"] = 0
        try:
            try:
                k.kill_threads()
            except SimDeadlock:
                pass
            if loop is not None:
                try:
                    tasks = [t for t in asyncio.all_tasks(loop) if not t.done()]
                    tasks.sort(key=lambda t: t.sim_hash)
                    if tasks and not self.hang:
                        for t in tasks:
                            t.cancel()
                        loop.call_later(60.0, loop.stop)
                        loop.run_forever()
                except (SimDeadlock, SimLivelock, SimHang):
                    pass
        finally:
            k.dead = True
            kmod.CURRENT = None
            asyncio.set_event_loop_policy(None)
            if loop is not None:
                try:
                    loop._ready.clear()
                    loop._scheduled.clear()
                    loop.close()
                except Exception:
                    pass
            for fn in self.cleanups:
                fn()
            collect()


def collect():
    "Finalizers may keep what they belong to alive until the next collection."
    for _ in range(8):
        if not gc.collect():
            break


_frozen = False


def run_spec(spec, replay=None, seed=None):
    """Execute one spec; returns the finished Sim."""
    global _frozen
    if not _frozen:
        gc.disable()
        gc.collect()
        gc.freeze()     # (collections only look at what the runs create)
        _frozen = True
    else:
        collect()       # nothing of an earlier execution may be left (callers drop it)
    ch = Choices(spec.get("seed", 0) if seed is None else seed, replay)
    s = Sim(spec, ch)
    subprocess._active.clear()
    s.execute()
    return s


def fingerprint(sim):
    "Hash of the complete event log: identical executions have identical values."
    import hashlib
    h = hashlib.sha1()
    for e in sim.k.log:
        h.update(repr(e).encode())
    h.update(repr(round(sim.k.now, 9)).encode())
    for v in sim.violations:
        h.update(repr((v.props, v.kind)).encode())
    return h.hexdigest()
