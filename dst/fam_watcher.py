"""C16: shellous.watcher.DefaultChildWatcher under preemptive threads.

Several simulated threads (and the main event loop) start children and register
them with one watcher.  Every source line of watcher.py (and of wait_pid) is a
point where the seed may switch to another thread or let a child run.
"""

import asyncio
import os
import random
import sys
import threading

from . import child, simloop

ENDS = [["exit", 0], ["exit", 0], ["exit", 3], ["exit", 255], ["killself", "SIGKILL"], ["killself", "SIGTERM"]]


# ------------------------------------------------------------------ generator
def generate(seed):
    r = random.Random(f"watcher/{seed}")
    nthreads = r.choice([0, 1, 1, 2, 2, 3])
    phases = []
    for _ in range(r.choice([1, 1, 1, 2])):
        kids = []
        for _ in range(r.choice([1, 2, 2, 3, 4, 6, 9])):
            kid = dict(th=int(r.random() * (nthreads + 1)), end=r.choice(ENDS))
            if r.random() < 0.5:
                kid["delay"] = r.choice([0.0, 0.001, 0.001, 0.1, 1.0])   # before it is started
            if r.random() < 0.4:
                kid["life"] = r.choice([0.0, 0.001, 0.1, 1.0])
            if r.random() < 0.3:
                kid["late"] = r.choice([0.0, 0.001, 0.1])                # between start and registration
            if r.random() < 0.08:
                kid["kill"] = r.choice([9, 15])
                kid["life"] = 50.0
            if r.random() < 0.15:
                kid["trap"] = True      # ignores SIGTERM
            if r.random() < 0.12:
                kid["dstate"] = r.choice([0.005, 0.05, 0.5, 2.0])   # uninterruptible for a while
            if r.random() < 0.05:
                kid["stay"] = True      # outlives the watcher
            kids.append(kid)
        phases.append(dict(kids=kids))
    for ph in phases:
        if r.random() < 0.15:
            ph["close_loops"] = True    # worker loops are closed before their callbacks come
    faults = []
    if r.random() < 0.3:
        for _ in range(r.choice([1, 1, 2, 3])):
            faults.append(list(r.choice([("pidfd_open", 1, "EMFILE"), ("pidfd_open", 2, "ENFILE"), ("pidfd_open", 3, "ENOMEM"),
                                         ("epoll_register", 1, "ENOMEM"), ("epoll_register", 2, "ENOSPC"), ("epoll_register", 3, "ENOSPC"),
                                         ("thread_start", 1, "EAGAIN"), ("thread_start", 2, "EAGAIN"),
                                         ("epoll", 1, "EMFILE"), ("pipe", 1, "EMFILE"), ("waitpid", 1, "ECHILD"),
                                         ("waitpid", 2, "ECHILD")])))
    return dict(
        seed=int(r.random() * (1 << 40)), family="watcher", prop="C16",
        kcfg=dict(preempt=r.choice([0.0, 0.02, 0.1, 0.3, 0.6]), thread_switch=r.choice([0.0, 0.1, 0.3, 0.6]),
                  reuse_fds=r.random() < 0.85, reuse_pids="now" if r.random() < 0.6 else False, world=r.choice([0.1, 0.5, 0.9]),
                  sys_world=r.choice([0.0, 0.1, 0.5]), child_delay=r.choice([0, 0, 0.2]), max_steps=200000),
        loop=dict(watcher=r.choice(["sh-epoll", "sh-epoll", "sh-thread"]), hash=1 + int(r.random() * 1e9)),
        threads=nthreads, phases=phases, faults=faults)


# ------------------------------------------------------------------- scenario
class KidRec:
    def __init__(self, d, n, phase):
        self.d = d
        self.n = n
        self.phase = phase
        self.proc = None
        self.reg0 = self.reg1 = None
        self.reg_exc = None
        self.calls = []        # (time, pid, status, args)
        self.event = None      # set in the registering loop
        self.loop = None
        self.closed_at_reg = False


class Family:
    def __init__(self, sim):
        self.sim = sim
        self.kids = []
        self.close_exc = []
        self.after_close = []     # leftover descriptors after each close
        self.worker_exc = []
        self.nfaults = 0

    def nontrivial(self, sim):
        return any(kd.proc is not None and kd.calls for kd in self.kids)

    # ------------------------------------------------------------ threads
    def tracer(self, frame, event, arg):
        code = frame.f_code
        name = code.co_filename
        if name.endswith("/shellous/watcher.py") or (code.co_name == "wait_pid" and name.endswith("/shellous/util.py")):
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == "line":
            self.sim.k.trace_point()
        return self.local

    async def kid(self, kd, wait):
        k = self.sim.k
        d = kd.d
        if d.get("delay") is not None:
            await asyncio.sleep(d["delay"])
        ops = []
        if d.get("trap"):
            ops.append(["trap", "SIGTERM", "ignore"])
        if d.get("dstate"):
            ops.append(["dstate", d["dstate"]])
        if d.get("stay"):
            ops.append(["sleep", 500.0])
        elif d.get("life") is not None:
            ops.append(["sleep", d["life"]])
        ops.append(d["end"])
        k.syscall()
        p = k.new_proc(f"kid{kd.n}")
        p.gen = child.run_ops(k, p, ops)
        p.launched = True
        kd.proc = p
        k.emit("fork", p.pid, p.name)
        if d.get("late") is not None:
            await asyncio.sleep(d["late"])
        loop = kd.loop = asyncio.get_running_loop()
        kd.event = asyncio.Event()

        def callback(pid, status, *args):
            kd.calls.append((k.now, pid, status, args))
            k.emit("callback", kd.n, pid, status)
            loop.call_soon_threadsafe(kd.event.set)
        kd.reg0 = k.now
        try:
            self.sim.watcher.add_child_handler(p.pid, callback, "arg", kd.n)
        except Exception as ex:
            kd.reg_exc = ex
        kd.reg1 = k.now
        if d.get("kill"):
            await asyncio.sleep(0.2)
            if p.state == "run":
                k.send(p, 9 if d.get("trap") else d["kill"], "external")
        if d.get("stay"):
            return
        if wait or kd.reg_exc is not None:
            try:
                await asyncio.wait_for(kd.event.wait(), 20.0)
            except asyncio.TimeoutError:
                pass

    async def worker(self, kids, wait):
        await asyncio.gather(*[self.kid(kd, wait) for kd in kids])

    def thread_main(self, loop, kids, wait):
        try:
            loop.run_until_complete(self.worker(kids, wait))
        except BaseException as ex:
            if type(ex).__name__ != "SimAbort":
                self.worker_exc.append(ex)
            raise
        finally:
            k = self.sim.k
            if k.abort is None and not k.dead:
                loop.close()


async def main(sim):
    fam = sim.family = Family(sim)
    k = sim.k
    spec = sim.spec
    watcher = sim.watcher
    n = 0
    k.tracer = fam.tracer
    for phase, ph in enumerate(spec["phases"]):
        mine = []
        for d in ph["kids"]:
            kd = KidRec(d, n, phase)
            n += 1
            mine.append(kd)
        fam.kids += mine
        threads = []
        k.armed = False
        for i in range(spec["threads"]):
            loop = simloop.SimLoop()
            loop.set_task_factory(simloop.task_factory)
            mykids = [kd for kd in mine if kd.d["th"] == i + 1]
            t = threading.Thread(target=fam.thread_main, args=(loop, mykids, not ph.get("close_loops")),
                                 name=f"worker{i}")
            threads.append(t)
        for t in threads:
            t.start()
        k.armed = True
        sys.settrace(fam.tracer)
        try:
            await fam.worker([kd for kd in mine if kd.d["th"] == 0 or kd.d["th"] > spec["threads"]], True)
            for _ in range(400):
                if not any(t.is_alive() for t in threads):
                    break
                await asyncio.sleep(0.1)
        finally:
            sys.settrace(None)
        # every child has had time to end; what was reported, was reported
        for _ in range(100):
            if all(kd.d.get("stay") or kd.proc is None or kd.proc.state == "reaped" for kd in mine):
                break
            await asyncio.sleep(0.1)
        await asyncio.sleep(0.5)
        sys.settrace(fam.tracer)
        try:
            watcher.close()
        except Exception as ex:
            fam.close_exc.append(ex)
        finally:
            sys.settrace(None)
        await asyncio.sleep(0)
        fam.after_close.append([(fd, k.fds[fd].kind) for fd in sorted(k.fds) if k.fd_tag[fd] == "watch"])
        fam.after_close_threads = [t.name for t in k.threads if t is not k.main and "EPoll" in t.name]
        if fam.after_close_threads:
            fam.after_close[-1].append(("thread", fam.after_close_threads))
        sim.watch_errors = list(k.thread_errors)
    k.armed = False
    k.tracer = None
    for kd in fam.kids:
        if kd.proc is not None and kd.proc.state == "run":
            k.send(kd.proc, 9, "harness")
    await asyncio.sleep(0.1)


# --------------------------------------------------------------------- judges
def _v(sim, kind, text):
    sim.violate(("C16",), kind, text)


def judge_hang(sim):
    pass


def true_status(p):
    st = p.status
    return -(st & 0x7F) if st & 0x7F else st >> 8


def judge(sim):
    fam = sim.family
    k = sim.k
    fired = [f for f in k.fired]
    start_fault = any(f.split(":")[0] in ("pidfd_open", "epoll_register", "thread_start", "epoll", "pipe") for f in fired)
    for ex in fam.worker_exc:
        _v(sim, "watcher-worker", f"{ex!r}")
    for ex in fam.close_exc:
        _v(sim, "watcher-close-error", f"close() raised {ex!r}")
    for name, ex in k.thread_errors:
        if not name.startswith("worker"):
            _v(sim, "watcher-thread-died", f"thread {name}: {ex!r}")
    for i, left in enumerate(fam.after_close):
        if left:
            _v(sim, "watcher-close-leak", f"after close() in phase {i}: {left}")
    ebadf = [e for e in k.fd_errors]
    if ebadf:
        _v(sim, "watcher-ebadf", f"{ebadf}")
    for kd in fam.kids:
        p = kd.proc
        if p is None:
            continue
        who = f"child {kd.n} (pid {p.pid}, phase {kd.phase}, thread {kd.d['th']})"
        if kd.reg_exc is not None:
            if not start_fault:
                _v(sim, "watcher-register", f"registering {who} failed: {kd.reg_exc!r}")
            elif not isinstance(kd.reg_exc, (OSError, RuntimeError)):
                _v(sim, "watcher-register", f"registering {who} failed: {kd.reg_exc!r}")
            if not kd.d.get("stay") and p.state != "reaped":
                _v(sim, "watcher-orphan", f"{who} could not be registered and was left {p.state}")
            if kd.d.get("stay") and not any(s == 9 for _, s, who2 in p.sigs if who2 == "lib-watch"):
                _v(sim, "watcher-orphan", f"{who} could not be registered and was not killed")
            if kd.d.get("stay"):
                continue
        if len(kd.calls) > 1:
            _v(sim, "watcher-twice", f"{who}: callbacks {kd.calls}")
        for t, pid, status, args in kd.calls:
            if pid != p.pid or args != ("arg", kd.n):
                _v(sim, "watcher-mixup", f"{who}: callback{(pid, status, args)}")
            if p.exit_time is None or t < p.exit_time:
                _v(sim, "watcher-early", f"{who}: callback before its exit")
            elif status != true_status(p) and not (p.lost and status == 255):
                _v(sim, "watcher-status", f"{who}: reported {status}, really {true_status(p)}")
        if kd.d.get("stay"):
            continue
        if not kd.calls and kd.reg0 is not None:
            _v(sim, "watcher-missed", f"{who}: exited but its callback was never called")
        elif kd.calls and kd.reg_exc is None:
            lag = kd.calls[0][0] - max(p.exit_time, kd.reg1)
            if lag > 0.05:
                _v(sim, "watcher-late", f"{who}: reported {lag:.3f} s after its exit")
        if p.state != "reaped":
            _v(sim, "watcher-zombie", f"{who} was left {p.state}")


Family.judge = staticmethod(judge)


def _hang(sim):
    _v(sim, "watcher-hang", f"{sim.hang}")


Family.judge_hang = staticmethod(_hang)
