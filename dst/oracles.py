"""What must hold for every simulated run.  All oracles look at every run; each
violation carries the ids of the properties it contradicts."""

import asyncio
import errno
import termios
import signal

from shellous import Result, ResultError

from .child import payload
from .sim import UserError, UserExit

EPS = 0.02
KILL = 9
ORPHAN_FAULTS = {"pidfd": "pidfd_open", "thread": "thread_start"}
WATCH_FAULTS = {
    "sh-epoll": ("pidfd_open", "epoll_register", "epoll", "pipe", "thread_start"),
    "sh-thread": ("thread_start",),
}


def judge(sim):
    Judge(sim).all()


def judge_hang(sim):
    Judge(sim).hang()


def errname(ex):
    return type(ex).__name__


class Judge:
    def __init__(self, sim):
        self.sim = sim
        self.k = sim.k
        self.spec = sim.spec
        self.errs = sorted(f for f in sim.k.fired if ":" in f)
        self.watcher = self.spec.get("loop", {}).get("watcher", "pidfd")
        self.conc = len(self.spec["runs"]) > 1
        of = ORPHAN_FAULTS.get(self.watcher)
        # asyncio's own watchers lose the process when they cannot register it
        self.std_orphan = bool(of and any(f.startswith(of) for f in self.errs))
        # shellous' watcher kills a process it cannot watch, and reaps it later
        wf = WATCH_FAULTS.get(self.watcher)
        self.unwatched = bool(wf and any(f.split(":")[0] in wf for f in self.errs))

    # -------------------------------------------------------------- helpers
    def bad(self, props, kind, detail=""):
        self.sim.violate(props, kind, detail)

    def stall(self, a, b):
        tot = 0.0
        for s, e in self.k.stall_log:
            lo, hi = max(a, s), min(b, e)
            if hi > lo:
                tot += hi - lo
        return tot

    def slack(self, a, b=None):
        "Tolerance for things that should happen at time a."
        m = EPS
        end = a + EPS
        # time during which the loop was stalled pushes everything back
        for s, e in self.k.stall_log:
            if s <= end and e > a:
                m += e - max(a, s)
                end = e + EPS
        return m

    def latest(self, a, b):
        "The latest time at which something due between a and b is surely done."
        end = b + EPS
        for s, e in self.k.stall_log:
            if s <= end and e > a:
                end = max(end, e + EPS)
        return end

    def within(self, rec, a):
        "How much later something due at time a may happen, after the clean-up of the user's tasks."
        x = self.latest(a, a)
        if self.hc(rec):
            x = self.latest(a, x + self.hc(rec))
        return x - a + EPS

    def opt(self, cr, name, default=None):
        return cr.spec.get("opts", {}).get(name, default)

    def ct(self, cr):
        return self.opt(cr, "cancel_timeout", 3.0)

    def csig(self, cr):
        s = self.opt(cr, "cancel_signal", "SIGTERM")
        return KILL if s is None else int(getattr(signal, s))

    def ops(self, cr):
        return self.spec["programs"][cr.prog]["ops"]

    def has_op(self, cr, *names):
        return any(op[0] in names for op in self.ops(cr))

    def has_fork(self, cr):
        return self.has_op(cr, "fork")

    def stop(self, cr):
        for a in cr.audit:
            if a["phase"] == "stop":
                return a
        return None

    def causes(self, rec, timers=True):
        "Times at which something asked the run to end early."
        out = list(rec.cancels)
        if rec.body_raise_t is not None and (rec.body_exc is not None or rec.broke):
            out.append(rec.body_raise_t)
        for h in rec.helpers:
            if h["failed_t"] is not None and rec.body_done_t is not None:
                out.append(max(h["failed_t"], rec.body_done_t))
        w = rec.run.get("wrap")
        if w:
            out.append(rec.start + w[1])
        if timers:
            out += [x for x, cr in self.member_timers(rec)]
        return sorted(out)

    def member_timers(self, rec):
        "The timeouts of a pipeline's members that expired, and those members."
        out = []
        if len(rec.members) > 1:
            for cr in rec.members:
                T, p = self.opt(cr, "timeout"), cr.proc
                if T is not None and p is not None and self.alive(p, p.spawn_time + T, 0):
                    out.append((p.spawn_time + T, cr))
        return out

    @staticmethod
    def hc(rec):
        "How long the user's tasks take to clean up: they are waited for."
        return max((h["cleanup"] for h in rec.helpers), default=0)

    def error_like(self, rec):
        "The run ended by an error that is not a status."
        o = rec.outcome
        return o[0] == "exc" and not isinstance(o[1], ResultError)

    def input_left(self, cr):
        "The process may have closed its standard input before it ended."
        return any(op[0] == "close" and op[1] == 0 for op in self.ops(cr))

    def normal(self, cr):
        "Did this command run to its own end, with nothing interfering?"
        rec = cr.rec
        if self.errs or cr.proc is None or len(cr.procs) != 1:
            return False
        if rec.user_signals and cr.role[0] == "cmd":
            pass
        if rec.outcome is None or rec.broke or rec.body_exc is not None:
            return False
        if cr.proc.exit_time is None:
            return False
        st = self.stop(cr)
        if self.opt(cr, "audit", True):
            if st is None or st["cancelled"] or st["failure"] or st["returncode"] is None:
                return False
        o = rec.outcome
        if o[0] == "ok":
            subs = [c for c in rec.cmds if c.role[0] == "sub"]
            if not self.opt(cr, "audit", True) and len(rec.members) > 1 and any(
                    c.proc is None or c.proc.exit_code not in {0} & set(self.opt(c, "exit_codes") or [0]) for c in rec.members if c is not cr):
                return False    # its readers may have been stopped by the failure of another member
            if subs and (len(rec.members) > 1 or any(c.role[4] > 1 for c in subs)) and any(
                    c.proc is None or c.proc.exit_code not in self.allowed_sub(c, None) & ({0} if c.role[4] > 1 else set(range(-64, 256)))
                    or (self.stop(c) or {}).get("cancelled") for c in subs):
                return False    # a failing substitution stands in for the command it belongs to
            if not self.opt(cr, "audit", True) and (rec.cancels or rec.run.get("wrap") or self.opt(cr, "timeout") is not None
                                                    or self.lib_sigs(cr.proc)):
                return False
            return True
        if o[0] == "exc" and isinstance(o[1], ResultError):
            if any(c.role[0] == "sub" for c in rec.cmds):
                return False    # whose status it is can't be told; the failure of one stops the others
            if o[1].result.cancelled and (len(rec.members) == 1 or cr.role[0] == "sub"):
                return False
            if cr.role[0] == "cmd" and len(rec.members) == 1:
                return True
            # other members may have been torn down: the audit told us it was not this one
            return self.opt(cr, "audit", True)
        return False

    def out_bytes(self, p, fds):
        return b"".join(d for _, fd, d in p.wlog if fd in fds)

    # ------------------------------------------------------------------ all
    def all(self):
        for rec in self.sim.recs:
            self.rec = rec
            if rec.outcome is None:
                raise RuntimeError("run without outcome")
            self.c01(rec)
            if rec.shutdown:
                self.unexplained(rec)
                continue    # its tasks were cancelled too: no telling how it ends
            if not self.std_orphan:
                self.c05(rec)
                self.c06(rec)
                self.c07(rec)
                self.c08(rec)
                self.c09(rec)
                self.c25(rec)
                self.c26(rec)
                self.c20(rec)
            for cr in rec.cmds:
                if not self.std_orphan:
                    self.c03(cr)
                    self.c04(cr)
                    self.c10(cr)
                    self.c14(cr)
                    self.c17(cr)
                self.c19(cr)
            self.prompt(rec)
            self.c13(rec)
        self.c02()
        self.c21()

    # ----------------------------------------------------------------- hang
    def hang(self):
        kind, why = self.sim.hang
        if self.std_orphan:
            return
        for rec in self.sim.recs:
            if rec.outcome is not None or not rec.started:
                continue
            if kind == "deadlock" and "nothing but timers" in why and not rec.cancels and any(
                    cr.subs and cr.proc is not None and cr.proc.exit_time is not None for cr in rec.cmds):
                continue    # a substitution outlives its command: the run waits for it
            if kind == "deadlock" and not rec.cancels and any(
                    p.stopped and self.opt(cr, "timeout") is None for cr in rec.cmds for p in cr.procs if p.state == "run"):
                continue    # it stopped itself, and nobody asked for its end
            if kind == "deadlock" and not rec.cancels and rec.run["mode"] != "await" and any(
                    name.startswith(("write:", "read:")) for name in self.errs) and not any(
                    self.opt(cr, "timeout") is not None for cr in rec.cmds):
                continue    # a redirection failed, which is noticed when the block ends: the user waits for the process
            props = set()
            multi = len(rec.members) > 1
            early = bool(self.causes(rec)) or bool(self.errs)
            failed = any(a["failure"] for cr in rec.cmds for a in cr.audit) or any(
                self.launch_spec(cr) for cr in rec.cmds)
            if rec.last_resort:
                props.update(("C12",))
            if multi and (early or failed):
                props.update(("C09",))
            if not multi and early:
                props.update(("C06", "C01"))
            if failed:
                props.add("C20")
            if any(self.opt(cr, "timeout") is not None for cr in rec.cmds):
                props.add("C07")
            if rec.run["mode"] == "prompt":
                props.add("C12")
            if any(cr.subs for cr in rec.cmds):
                props.add("C10")
            if any(self.opt(cr, "pty") for cr in rec.cmds):
                props.add("C17")
            if rec.run["mode"] == "aiter":
                props.add("C13")
            if multi and not early and not failed:
                props.update(("C08", "C22"))
            if not early and not failed:
                props.update(("C22", "C03", "C04"))
                if self.conc:
                    props.add("C19")
            if rec.cancels:
                props.add("C21")
            self.bad(sorted(props), "hang-" + kind, f"run {rec.run['id']} mode={rec.run['mode']} {why}")
        if not self.sim.violations and all(rec.outcome is not None or not rec.started for rec in self.sim.recs):
            self.bad(["C21", "C22", "C01"], "hang-after-" + kind, why)

    # ------------------------------------------------------------------ C01
    def c01(self, rec):
        if self.std_orphan:
            return
        o = rec.outcome
        for name, state, stopped, dstate in rec.left:
            cr = self.sim.by_prog[name]
            killed = [t for p in cr.procs for t, sig, who in p.sigs if sig == KILL and who.startswith("lib")]
            # (In a pipeline or a substitution, an earlier failure may prevail.)
            if self.has_op(cr, "dstate") and (o[0] != "ok" or rec.run["mode"] == "aiter" or len(rec.cmds) > 1) and killed \
                    and killed[0] + 3.0 <= rec.end + EPS:
                continue  # unkillable, given up
            if rec.shutdown and killed:
                continue  # the wait for it was cancelled too
            if self.unwatched and (state == "zombie" or killed):
                continue
            if o[0] == "exc" and isinstance(o[1], RuntimeError) and self.stall(rec.start, rec.end) >= 10:
                continue  # stalled for longer than all of the timeouts together
            props = ["C01"]
            if cr.role[0] == "sub":
                props.append("C10")
            if len(rec.members) > 1:
                props.append("C09")
            if rec.run["mode"] == "aiter":
                props.append("C13")
            if self.launch_failed(rec):
                props.append("C20")
            self.bad(props, "process-left", f"{name} {state} stopped={stopped} at end ({rec.outcome[0]})")

    def launch_failed(self, rec):
        return any(a["failure"] for cr in rec.cmds for a in cr.audit)

    # ------------------------------------------------------------------ C02
    def c02(self):
        sim = self.sim
        recs = sim.recs
        extra = []
        if any(self.launch_failed(r) or any(self.launch_spec(c) for c in r.cmds) for r in recs):
            extra.append("C20")
        for fd, kind, oid in sim.lib_fds:
            tag = sim.lib_tags[fd]
            if tag == "std" and (self.errs or self.std_orphan):
                # CPython's subprocess and asyncio leak on their own error paths
                continue
            if self.std_orphan:
                continue
            props = ["C02"] + extra
            if kind in ("ptm", "pts"):
                props.append("C17")
            if any(cr.subs for r in recs for cr in r.cmds):
                props.append("C10")
            self.bad(props, "fd-leak", f"fd {fd} {kind} ({tag}) still open at the end")
        for fd, kind, oid, tag in getattr(sim, "late_fds", ()):
            if self.std_orphan or (tag == "std" and (self.errs or any(self.has_op(cr, "dstate") for r in recs for cr in r.cmds))) or any(x[0] == fd for x in sim.lib_fds):
                continue
            self.bad(["C02"] + extra, "fd-late", f"fd {fd} {kind} ({tag}) still open when all runs had ended")
        for op, fd in sim.ebadf:
            if op == "epoll":
                continue
            self.bad(["C02"] + extra, "bad-fd-" + op, f"{op} on fd {fd} which is not open")
        for fd, ofd, policy, closed, started in sim.user_state:
            if policy == "keep" and closed:
                self.bad(["C02"], "user-fd-closed", f"descriptor {fd} of the caller was closed")
            if policy == "close" and not closed and started:
                self.bad(["C02"] + extra, "user-fd-not-closed", f"descriptor {fd} given with close=True is open")

    # ------------------------------------------------------------------ C03
    def expected(self, cr, which):
        "Bytes that the command wrote to what `which` is connected to, or None."
        p = cr.proc
        o = self.out_kind(cr)
        e = cr.err.kind
        if e == "default" and self.opt(cr, "pty"):
            e = "stdout"
        if which == 1:
            fds = {1, 2} if e == "stdout" and o != "devnull" else {1}
        else:
            fds = {2}
        return self.out_bytes(p, fds)

    def out_kind(self, cr):
        "Kind of standard output; pipelines and substitutions replace it."
        r = cr.role
        if r[0] == "cmd":
            own = r[1] == len(cr.rec.members) - 1
        else:
            own = r[3] == r[4] - 1 and r[5]
        return cr.out.kind if own else "pipe"

    def c03(self, cr):
        p = cr.proc
        if p is None:
            return
        if self.has_fork(cr) or len(cr.procs) != 1:
            return
        normal = self.normal(cr)
        if self.opt(cr, "pty"):
            if self.out_kind(cr) in ("path", "filefd", "fileobj"):
                self.sink_check(cr, p, 1, cr.out, normal)   # (the terminal itself is C17's)
            return
        last = cr.role[0] == "cmd" and cr.role[1] == len(cr.rec.members) - 1
        sub_last = cr.role[0] == "sub" and cr.role[3] == cr.role[4] - 1
        writable = cr.role[0] == "sub" and cr.role[5]
        for which in (1, 2):
            sink = cr.out if which == 1 else cr.err
            if which == 1 and not last and not (sub_last and writable):
                continue
            self.sink_check(cr, p, which, sink, normal)

    def sink_check(self, cr, p, which, sink, normal):
        rec = cr.rec
        kind = sink.kind
        name = "stdout" if which == 1 else "stderr"
        exp = self.expected(cr, which)
        st = self.stop(cr)
        res = st.get("result") if st else None
        if res is None and cr.role[0] == "cmd" and len(rec.members) == 1:
            res = self.result_of(rec)
        props = ["C03"]
        if self.conc:
            props.append("C18")

        def cmp(got, exp, what):
            if normal:
                if got != exp:
                    self.bad(props, f"output-{what}", f"{cr.prog} {name} {kind}: {diff(got, exp)}")
            elif not exp.startswith(got):
                self.bad(props, f"output-prefix-{what}", f"{cr.prog} {name} {kind}: {diff(got, exp)}")

        mode = rec.run["mode"]
        stderr_only = self.out_kind(cr) == "devnull" and cr.err.kind == "stdout"
        if which == 2 and kind == "stdout":
            if stderr_only and res is not None:
                if mode == "aiter":
                    return
                cmp(res.output_bytes, exp, "stderr-only")
            return
        if kind in ("default", "buffer"):
            if which == 1 and mode in ("aiter", "prompt") and cr.role[0] == "cmd":
                return
            if res is None:
                return
            if which == 1:
                cmp(res.output_bytes, exp, "buffer")
                self.final_text(cr, exp, normal)
            else:
                limit = self.opt(cr, "error_limit", 1024)
                got = res.error_bytes
                if normal:
                    cmp(got, exp[:limit], "error-limit")
                else:
                    if not exp[:limit].startswith(got):
                        self.bad(props, "output-prefix-error", f"{cr.prog}: {diff(got, exp[:limit])}")
            return
        if kind in ("bytearray", "bytesio"):
            got = bytes(sink.obj) if kind == "bytearray" else sink.obj.getvalue()
            cmp(got, (sink.pre if sink.append else b"") + exp, "memory")
        elif kind == "stringio":
            if not normal:
                return
            enc = sink.encoding.split()
            pre = sink.pre.decode(enc[0]) if sink.append else ""
            try:
                want = pre + exp.decode(*enc)
            except UnicodeDecodeError:
                return
            if sink.obj.getvalue() != want:
                self.bad(props, "output-stringio", f"{cr.prog} {name}: {diff(sink.obj.getvalue(), want)}")
        elif kind == "path":
            node = self.k.files.get(str(sink.obj))
            if node is None:
                self.bad(props, "output-path", "file missing")
                return
            cmp(bytes(node.data), (sink.pre if sink.append else b"") + exp, "path")
        elif kind == "fileobj":
            node = self.k.files[sink.extra[0]]
            cmp(bytes(node.data), (sink.pre if sink.append else b"") + exp, "file")
        elif kind == "filefd":
            cmp(bytes(self.k.files[sink.extra[0]].data), exp, "filefd")
        elif kind in ("fd", "writer"):
            q = sink.extra[0]
            got = bytes(q.read.get(0, b""))
            cmp(got, exp, kind)
            if kind == "writer" and normal and 0 not in q.eof:
                self.bad(props, "writer-not-closed", f"{cr.prog} {name}: no end-of-file after the copy")
        elif kind == "logger":
            if not normal:
                return
            enc = sink.encoding.split()
            want = [x.decode(*enc).rstrip() for x in split_lines(exp)]
            if sink.obj.lines != want:
                self.bad(props, "output-logger", f"{cr.prog} {name}: {diff(sink.obj.lines, want)}")
        elif kind == "capture":
            if mode == "ctx":
                got = bytes(rec.got if which == 1 else rec.got_err)
                if rec.lines and which == 1:
                    return
                eof = rec.read_eof if which == 1 else rec.err_eof
                if not exp.startswith(got):
                    self.bad(props, "output-prefix-capture", diff(got, exp))
                elif eof and not self.errs and got != exp and (normal or not any(c.role[0] == "sub" for c in cr.rec.cmds)):
                    # (a failing substitution stops the command it belongs to)
                    self.bad(props, "output-capture", diff(got, exp))
        elif kind == "inherit":
            same = [c for r in self.sim.recs for c in r.cmds
                    if any(s is not None and s.kind == "inherit" for s in (c.out, c.err))]
            if len(same) == 1 and not (cr.out.kind == "inherit" and cr.err.kind == "inherit"):
                cmp(bytes(self.k.files[f"/sim/{name}"].data), exp, "inherit")

    def final_text(self, cr, exp, normal):
        "The value returned to the caller of the whole run."
        rec = cr.rec
        if not normal or cr.role[0] != "cmd" or rec.run["mode"] != "await" or rec.outcome[0] != "ok":
            return
        v = rec.outcome[1]
        if isinstance(v, Result):
            if v.output_bytes != exp:
                self.bad(["C03", "C08"] if len(rec.members) > 1 else ["C03"], "result-output", diff(v.output_bytes, exp))
        else:
            enc = self.opt(cr, "encoding", "utf-8").split()
            if v != exp.decode(*enc):
                self.bad(["C03", "C08"] if len(rec.members) > 1 else ["C03"], "result-text", diff(v, exp.decode(*enc)))

    # ------------------------------------------------------------------ C04
    def c04(self, cr):
        p = cr.proc
        if p is None or len(cr.procs) != 1:
            return
        first = (cr.role[0] == "cmd" and cr.role[1] == 0) or (cr.role[0] == "sub" and cr.role[3] == 0 and not cr.role[5])
        if not first or self.has_fork(cr):
            return
        src = cr.src
        rec = cr.rec
        if rec.run["mode"] == "prompt" and cr.role[0] == "cmd":
            return
        if src.kind == "capture" or (self.opt(cr, "pty") and src.kind == "default"):
            want = bytes(rec.wrote) if cr.role[0] == "cmd" else b""
            if self.opt(cr, "pty"):
                return
        elif src.kind in ("inherit", "devnull", "default"):
            want = b""
        elif src.kind == "badtype":
            return
        else:
            want = src.data
        got = bytes(p.read.get(0, b""))
        props = ["C04"]
        if self.opt(cr, "pty"):
            props.append("C17")
        if not want.startswith(got):
            self.bad(props, "input-wrong", f"{cr.prog} {src.kind}: {diff(got, want)}")
            return
        if 0 in p.eof and got != want and not self.errs:
            sig = [t for t, s, who in p.sigs if who.startswith("lib")]
            if sig and sig[0] <= p.eof[0]:
                return
            c = self.causes(rec)
            if c and c[0] <= p.eof[0] + EPS:
                return
            t = self.opt(cr, "timeout")
            if t is not None and p.spawn_time + t <= p.eof[0] + EPS:
                return
            if cr.role[0] == "sub" or len(rec.members) > 1:
                # may be torn down by a failing neighbour
                if not self.normal(cr):
                    return
            self.bad(props, "input-truncated", f"{cr.prog} {src.kind}: got {len(got)} of {len(want)} bytes, then EOF")

    # ------------------------------------------------------------------ C05
    def result_of(self, rec):
        o = rec.outcome
        if o[0] == "ok":
            if isinstance(o[1], Result):
                return o[1]
            if rec.unchecked is not None:
                return rec.unchecked
        elif o[0] == "exc" and isinstance(o[1], ResultError):
            if any(cr.subs for cr in rec.members):
                # may be the result of a substituted command
                return rec.unchecked
            return o[1].result
        return rec.unchecked

    def allowed(self, rec, cr):
        if rec.run.get("result") == "result":
            return None
        e = self.opt(cr, "exit_codes")
        return set(e) if e else {0}

    def ok_codes(self, cr):
        "Exit codes that may be reported for a process."
        p = cr.proc
        if p.exit_code != 255 and not p.lost:
            return {p.exit_code}
        # unknown, or reported like unknown: the last signal sent stands in
        sigs = {int(s) for t, s, who in p.sigs if who.startswith("lib")}
        if self.opt(cr, "audit", True):
            sigs |= {int(getattr(signal, x["signal"])) for x in cr.audit if x["phase"] == "signal" and x["signal"]}
        else:
            sigs |= {self.csig(cr), KILL}
            sigs |= {int(getattr(signal, op[1])) for op in cr.rec.run.get("body", ()) if op[0] == "signal"}
        return {255, p.exit_code} | {-s for s in sigs}

    def name_of(self, cr):
        "The name that a command is shown with."
        alt = self.opt(cr, "alt_name")
        return alt or (cr.prog if len(cr.prog) <= 31 else "..." + cr.prog[-31:])

    def c25(self, rec):
        "The handle of a run, and the signals sent with it."
        cr = rec.members[0]
        dst = self.has_op(cr, "dstate")
        for m in rec.cmds:
            for a in m.audit:
                what = f"{m.prog} in the {a['phase']} callback: "
                if a["phase"] == "start" and (a["pid"], a["returncode"], a["cancelled"]) != (None, None, False):
                    self.bad(["C25"], "handle-start", f"{what}pid {a['pid']} returncode {a['returncode']} cancelled {a['cancelled']}")
                if a["returncode"] is not None and a["alive"] and not self.errs and not any(p.lost for p in m.procs):
                    self.bad(["C25"], "handle-returncode", f"{what}returncode {a['returncode']} but the process runs")
        for x in rec.looks:
            what = f"{cr.prog} {x['where']}: "
            if len(cr.procs) > 1:
                return
            want = "|".join(self.name_of(m) for m in rec.members)
            if x["name"] != want:
                self.bad(["C25"], "handle-name", f"{what}name {x['name']!r}, expected {want!r}")
            if x["single"] or x["pid"] is not None:
                if x["pid"] != x["ppid"]:
                    self.bad(["C25"], "handle-pid", f"{what}pid {x['pid']}, real {x['ppid']}")
            if not x["single"] or self.errs or x["lost"]:
                continue
            if x["rc"] is not None and x["ppid"] is not None and not (cr.proc and cr.proc.lost):
                if not x["exited"]:
                    self.bad(["C25"], "handle-returncode", f"{what}returncode {x['rc']} but the process runs")
                elif x["rc"] not in self.ok_codes(cr):
                    self.bad(["C25"], "handle-returncode", f"{what}returncode {x['rc']}, real {x['code']}")
            if x["where"] == "after" and x["rc"] is None and x["ppid"] is not None and not dst:
                self.bad(["C25"], "handle-returncode", f"{what}no returncode although the run has ended")
            if x["cancelled"] and not self.causes(rec) and self.opt(cr, "timeout") is None and not rec.body_failed:
                self.bad(["C25"], "handle-cancelled", f"{what}cancelled without any cancellation")
        for c in rec.controls:
            what = f"{cr.prog} {c['where']} {c['op']}: "
            if any(not mine for mine, s in c["got"]):
                self.bad(["C25"], "signal-stray", f"{what}another process was sent {c['got']}")
            got = [s for mine, s in c["got"] if mine]
            if self.errs:
                continue
            if c["exc"] is not None:
                self.bad(["C25"], "signal-raised", f"{what}{c['exc']!r}")
            elif got != [c["num"]] and (got or c["alive"] and c["rc"] is None):
                self.bad(["C25"], "signal-lost", f"{what}the process runs and was sent {got}, expected {c['num']}")
            elif c["where"] == "after" and not dst and got:
                self.bad(["C25"], "signal-stray", f"{what}signals {got} after the run had ended")

    def c26(self, rec):
        "Tasks that were added to a run."
        if not rec.helpers:
            return
        cr = rec.members[0]
        p = cr.proc
        o = rec.outcome
        T = self.opt(cr, "timeout")
        others = rec.cancels or rec.body_exc is not None or rec.body_failed or rec.run.get("wrap") or self.errs or rec.broke
        failed = sorted(h["failed_t"] for h in rec.helpers if h["failed_t"] is not None and not h["left"])
        for h in rec.helpers:
            what = f"{cr.prog} {h['how']} {h['dur']}: "
            if h["left"]:
                self.bad(["C26"], "task-left", f"{what}still pending when the run has ended")
            elif h["cancel_t"] is not None or not h["started"]:
                if o[0] == "ok" and not self.opt(cr, "catch_cancel"):
                    self.bad(["C26"], "task-cancelled", f"{what}cancelled although nothing failed")
        if failed and o[0] == "ok" and not self.opt(cr, "catch_cancel"):
            self.bad(["C26"], "task-failure-lost", f"{cr.prog}: a task failed but the run ended normally")
        if others or T is not None or rec.body_done_t is None or p is None or len(cr.procs) != 1:
            return
        if failed:
            if not any(o[1] is h["exc"] for h in rec.helpers) and not (
                    isinstance(o[1], (BrokenPipeError, ConnectionResetError)) or self.has_op(cr, "dstate") and isinstance(o[1], RuntimeError)
                    or cr.subs
                    or isinstance(o[1], UnicodeDecodeError) and "stringio" in (cr.spec.get("stdout", [0])[0], cr.spec.get("stderr", [0])[0])):
                self.bad(["C26"], "task-failure-lost", f"{cr.prog}: a task failed but {o[0]} {o[1]!r}"[:300])
            t = max(failed[0], rec.body_done_t)
            m = self.within(rec, t)
            sigs = self.lib_sigs(p)
            if self.alive(p, t, m) and not rec.user_signals and not cr.subs:
                if not sigs:
                    self.bad(["C26"], "task-failure-ignored", f"{cr.prog}: a task failed, the process was not signalled")
                elif sigs[0][0] > t + m:
                    self.bad(["C26"], "task-failure-late", f"{cr.prog}: a task failed at {t - self.k.t0:.4f}, the process was signalled at {sigs[0][0] - self.k.t0:.4f}")

    def c05(self, rec):
        if len(rec.members) != 1:
            return
        cr = rec.members[0]
        p = cr.proc
        o = rec.outcome
        res = self.result_of(rec)
        if p is None:
            if res is not None and not res.cancelled:
                self.bad(["C05"], "status-without-process", repr(res)[:200])
            return
        if rec.run["mode"] == "prompt" and o[0] == "ok":
            res = o[1]
        lost = p.lost
        allowed = self.allowed(rec, cr)
        true = p.exit_code
        okcodes = self.ok_codes(cr)
        if res is not None:
            if res.exit_code not in okcodes:
                self.bad(["C05"], "wrong-status", f"{cr.prog}: reported {res.exit_code}, real {true}, lost={lost}")
            elif true == 255 and not lost and res.exit_code < 0:
                self.bad(["C05"], "status-255", f"{cr.prog}: exit status 255 is reported as signal {-res.exit_code}, which was sent earlier")
            possible = bool(self.causes(rec)) or self.opt(cr, "timeout") is not None
            if res.cancelled and not possible:
                self.bad(["C05"], "cancelled-flag", "Result.cancelled without any cancellation")
            if not res.cancelled and self.must_cancel(rec, cr):
                self.bad(["C05"], "cancelled-flag-missing", "Result.cancelled is False after a cancellation")
        if lost or true is None:
            return
        checked = rec.run["mode"] in ("await", "ctx")
        if not checked:
            return
        if true == 255 and self.lib_sigs_all(p):
            return      # (the finding above)
        bad_code = allowed is not None and true not in allowed
        if o[0] == "ok" and bad_code:
            self.bad(["C05"], "error-not-raised", f"{cr.prog}: status {true}, allowed {allowed}")
        if o[0] == "exc" and isinstance(o[1], ResultError) and not bad_code and not o[1].result.cancelled and not cr.subs:
            self.bad(["C05"], "error-raised", f"{cr.prog}: status {true} is allowed")
        if o[0] == "ok" and isinstance(o[1], Result) and o[1].cancelled and self.opt(cr, "timeout") is None:
            self.bad(["C05"], "cancelled-as-success", "")

    def must_cancel(self, rec, cr):
        "A cancellation certainly hit the running process."
        p = cr.proc
        c = self.causes(rec)
        if not c or p is None:
            return False
        t = max(c[0], p.spawn_time)
        return bool(rec.cancels) and rec.cancels[0] == c[0] and self.alive(p, t, self.slack(t)) and c[0] < (rec.entered_t or 1e18)

    @staticmethod
    def alive(p, t, margin):
        return p.exit_time is None or p.exit_time > t + margin

    # ------------------------------------------------------------------ C06
    def lib_sigs(self, p):
        "Signals that the library sent, and not because the caller told it to."
        soft = self.sim.soft_signals
        return [(t, s) for t, s, who in p.sigs if who.startswith("lib")
                and not any(a <= t <= b and s == n for a, b, n in soft)]

    @staticmethod
    def lib_sigs_all(p):
        return [s for t, s, who in p.sigs if who.startswith("lib")]

    def c06(self, rec):
        if len(rec.members) != 1 or rec.members[0].subs or self.errs:
            return
        cr = rec.members[0]
        p = cr.proc
        o = rec.outcome
        if p is None or len(cr.procs) != 1:
            return
        sigs = self.lib_sigs(p)
        causes = self.causes(rec)
        T = self.opt(cr, "timeout")
        tmo = p.spawn_time + T if T is not None else None
        if not causes and tmo is None and not rec.user_signals:
            if sigs and not self.error_like(rec):
                self.bad(["C06"], "signal-without-cause", f"{cr.prog}: {sigs}")
            return
        if not causes:
            return
        tc = max(causes[0], p.spawn_time)
        if tmo is not None and tmo < tc + self.slack(tc) + EPS:
            return
        if rec.user_signals:
            return
        m = self.within(rec, tc)
        ct = self.ct(cr)
        csig = self.csig(cr)
        is_cancel = bool(rec.cancels) and rec.cancels[0] == causes[0] or bool(rec.run.get("wrap"))
        still = self.alive(p, tc, m)
        caught = self.opt(cr, "catch_cancel")
        if rec.cancels and rec.cancels[0] == causes[0] and rec.body_exc is None and not rec.broke and not rec.run.get("wrap"):
            v = o[1].result if o[0] == "exc" and isinstance(o[1], ResultError) else o[1]
            if o[0] == "ok" and not isinstance(v, Result) and not caught or isinstance(v, Result) and not v.cancelled and o[0] != "cancelled":
                self.bad(["C06", "C05"], "cancel-lost", f"{rec.run['mode']}: cancelled at {tc - self.k.t0:.4f}, but {o[0]} {o[1]!r}"[:300])
        dst = self.has_op(cr, "dstate")
        # an I/O error that is not ours may have started termination on its own
        if sigs and sigs[0][0] < tc - EPS:
            if not self.error_like(rec) and not caught and not self.input_left(cr) and not rec.body_failed:
                self.bad(["C06"], "signal-without-cause", f"{cr.prog}: {sigs} before {tc}")
            return
        if not still:
            return
        if not sigs:
            self.bad(["C06"], "no-signal", f"{cr.prog}: cancelled at {tc - self.k.t0:.4f}, no signal was sent")
            return
        t1, s1 = sigs[0]
        second = len(causes) > 1 and causes[1] <= t1 + ct + EPS
        if s1 != csig:
            self.bad(["C06"], "wrong-signal", f"{cr.prog}: first signal {s1}, expected {csig}")
        if t1 > tc + m:
            self.bad(["C06"], "late-signal", f"{cr.prog}: cancelled at {tc - self.k.t0:.4f}, signalled at {t1 - self.k.t0:.4f}")
        kills = [t for t, s in sigs[1:] if s == KILL]
        if csig != KILL and not second:
            extra = [x for x in sigs[1:] if x[1] != KILL]
            if extra:
                self.bad(["C06"], "extra-signal", f"{cr.prog}: {sigs}")
            if kills and kills[0] < t1 + ct - EPS:
                if not (self.error_like(rec) and o[1] is not rec.body_exc) and not (
                        caught and not is_cancel and tmo is not None and kills[0] > tmo - EPS):
                    self.bad(["C06"], "early-kill", f"{cr.prog}: signal at {t1 - self.k.t0:.4f}, SIGKILL at {kills[0] - self.k.t0:.4f}, cancel_timeout {ct}")
            tk = t1 + ct
            mk = self.slack(tk) + EPS + self.hc(rec) + self.stall(t1, kills[0] if kills else rec.end)
            if self.alive(p, tk, mk) and (not kills or kills[0] > tk + mk):
                self.bad(["C06"], "no-kill", f"{cr.prog}: signal at {t1 - self.k.t0:.4f} cancel_timeout {ct}, kills {kills}, exit {p.exit_time}")
        bound = t1 + 2 * ct + 3.0 + 0.25 + 0.5 + 3 * self.hc(rec) + self.stall(t1, rec.end) + (3.5 if dst else 0)
        # (Cancelled again while it waits for the killed process, it waits anew.)
        bound = max([bound] + [t + 3.75 + 3 * self.hc(rec) + self.stall(t, rec.end) + EPS for t in rec.cancels if t > t1])
        if rec.end > bound:
            self.bad(["C06"], "slow-end", f"{cr.prog}: signal at {t1 - self.k.t0:.4f}, run ended at {rec.end - self.k.t0:.4f}")
        # What the caller sees.
        if o[0] == "exc" and isinstance(o[1], (RuntimeError, TypeError)) and dst:
            return  # unkillable, and given up
        if o[0] == "exc" and isinstance(o[1], RuntimeError) and self.stall(tc, rec.end) >= 3.0 - EPS:
            return  # the loop was stalled for so long that the grace periods passed
        if rec.run.get("wrap"):
            return
        if is_cancel and rec.body_exc is None and not rec.broke:
            ok = o[0] == "cancelled"
            if caught:
                ok = ok or (o[0] == "exc" and isinstance(o[1], ResultError) and o[1].result.cancelled)
                ok = ok or (o[0] == "ok" and rec.run["mode"] in ("aiter", "prompt"))
            if rec.run["mode"] == "prompt":
                ok = ok or rec.last_resort
            ok = ok or any(o[1] is h["exc"] for h in rec.helpers if h["exc"])
            if not ok:
                self.bad(["C06"] + (["C12"] if rec.run["mode"] == "prompt" else []), "cancel-outcome",
                         f"{rec.run['mode']}: cancelled while running, but {o[0]} {o[1]!r}"[:300])
        elif rec.body_exc is not None and not rec.cancels:
            if tmo is not None and (caught or isinstance(o[1], TimeoutError)) and p.exit_time is not None and (
                    p.exit_time >= tmo - EPS or rec.end >= tmo - EPS and (
                        self.has_fork(cr) or "capture" in (cr.spec.get("stdout", [0])[0], cr.spec.get("stderr", [0])[0]))):
                pass    # its timeout expired while it was being terminated (or while a pipe of it was still open)
            elif o[1] is not rec.body_exc and not any(h["failed_t"] is not None for h in rec.helpers):
                self.bad(["C06"], "body-exception-lost", f"{rec.run['mode']}: {o[0]} {o[1]!r}"[:300])

    # ------------------------------------------------------------------ C07
    def c07_members(self, rec):
        "Timeouts of members of a pipeline: their process is terminated."
        if self.errs or any(cr.subs for cr in rec.members):
            return
        others = self.causes(rec, timers=False)
        timers = self.member_timers(rec)
        for fire, cr in timers:
            p = cr.proc
            if len(cr.procs) != 1 or (others and others[0] <= fire + EPS):
                continue
            m = self.latest(fire, self.latest(p.spawn_time, p.spawn_time) + fire - p.spawn_time) - fire + EPS + 0.001
            sigs = self.lib_sigs(p)
            if any(t < fire - EPS for t, s in sigs) or not self.alive(p, fire, m):
                continue    # torn down before, or ended meanwhile
            if not sigs:
                self.bad(["C07"], "timeout-no-signal", f"{cr.prog}: a member of a pipeline")
            elif sigs[0][0] > fire + m:
                self.bad(["C07"], "timeout-late", f"{cr.prog}: signal {sigs[0][0] - p.spawn_time:.4f}s after launch")
            elif sigs[0][1] != self.csig(cr):
                self.bad(["C07"], "timeout-wrong-signal", f"{cr.prog}: {sigs[0]}")

    def c07(self, rec):
        if rec.late_cancel is not None:
            self.bad(["C07", "C21"], "late-cancel", f"cancelled at {rec.late_cancel - self.k.t0:.4f}s, after the run had ended")
        extra = rec.cancelling - len(rec.cancels) - (1 if rec.run.get("wrap") and rec.outcome[0] == "cancelled" else 0)
        if extra > 0 and not rec.run.get("wrap"):
            self.bad(["C07"], "task-left-cancelling", f"cancelling()={rec.cancelling} after {len(rec.cancels)} cancel requests ({rec.outcome[0]})")
        if extra < 0 and not rec.run.get("wrap"):
            self.bad(["C07"], "cancel-withdrawn", f"cancelling()={rec.cancelling} after {len(rec.cancels)} cancel requests ({rec.outcome[0]})")
        w = rec.run.get("wrap")
        o = rec.outcome
        if w and w[0] == "timeout" and rec.tm is not None and not rec.cancels:
            if rec.tm.expired() and o[0] != "exc" and not any(self.opt(cr, "catch_cancel") for cr in rec.cmds):
                self.bad(["C07", "C12"], "outer-timeout-lost", f"asyncio.timeout expired but {o[0]}")
        if len(rec.members) > 1:
            self.c07_members(rec)
        if len(rec.members) != 1 or self.errs:
            return
        cr = rec.members[0]
        T = self.opt(cr, "timeout")
        p = cr.proc
        timed = o[0] == "exc" and isinstance(o[1], asyncio.TimeoutError)
        if T is None:
            if timed and not w and rec.run["mode"] != "prompt":
                self.bad(["C07"], "timeout-without-timer", "")
            return
        if p is None or len(cr.procs) != 1:
            return
        L = p.spawn_time
        fire = L + T
        causes = self.causes(rec)
        m = self.latest(fire, self.latest(L, L) + T + self.hc(rec)) - fire + EPS
        if causes and causes[0] <= fire + m:
            return
        if rec.user_signals:
            return
        sigs = self.lib_sigs(p)
        caught = self.opt(cr, "catch_cancel")
        dst = self.has_op(cr, "dstate")
        ended_by_error = self.error_like(rec) and not timed
        if timed and rec.ctx_exit_t is not None and not w:
            self.bad(["C07"], "timeout-not-raised", f"{cr.prog}: T={T}: the block ended normally at {rec.ctx_exit_t - L:.4f}s, {o[1]!r} came later")
        if self.alive(p, fire, m):
            ok = timed
            if caught:
                ok = (timed and bool(w)) or (o[0] == "exc" and isinstance(o[1], ResultError)) or (o[0] == "ok") or (o[0] == "cancelled" and bool(rec.cancels))
            if o[0] == "exc" and isinstance(o[1], RuntimeError) and dst:
                ok = True
            if ended_by_error and sigs and sigs[0][0] < fire + (m if m > 0.001 else 0):
                return   # (both came to light at once, after a stall)
            if cr.subs and o[0] == "exc" and not timed:
                return  # the failure of a substitution came first
            if any(t < fire - EPS for c in rec.cmds if c.role[0] == "sub" for q in c.procs for t, s in self.lib_sigs(q)):
                return  # termination had begun, with the substitutions
            if not ok and o[0] == "cancelled" and rec.napping is not None and not rec.cancels:
                self.bad(["C07"], "timeout-in-loop-body", f"async for: timeout {T} expired while the body of the loop was waiting: {o[0]}")
            elif not ok:
                self.bad(["C07"], "timeout-not-raised", f"{cr.prog}: T={T}, process ended {p.exit_time - L:.4f}s after launch, outcome {o[0]} {o[1]!r}"[:300])
            if not sigs:
                if not cr.subs:    # (stopping a substitution may have stopped it)
                    self.bad(["C07"], "timeout-no-signal", "")
            else:
                if sigs[0][0] < fire - EPS and not (cr.subs and not timed):
                    self.bad(["C07"], "timeout-early", f"T={T}: signal {sigs[0][0] - L:.4f}s after launch")
                if sigs[0][0] > fire + m and not cr.subs:
                    self.bad(["C07"], "timeout-late", f"T={T}: signal {sigs[0][0] - L:.4f}s after launch")
                if sigs[0][1] != self.csig(cr):
                    self.bad(["C07"], "timeout-wrong-signal", f"{sigs[0]}")
            ct = self.ct(cr)
            ct += sum(self.ct(c) + 2.0 for c in rec.cmds if c.role[0] == "sub")
            if rec.end > fire + m + 2 * ct + 3.8 + self.stall(fire, rec.end) + (3.5 if dst else 0):
                self.bad(["C07"], "timeout-slow-end", f"T={T} ended {rec.end - L:.4f}s after launch")
        elif p.exit_time is not None and p.exit_time < fire - m:
            # When had everything that the caller must read been read?
            read = p.exit_time
            if rec.run["mode"] == "prompt":
                read = next((h["t1"] for h in rec.history if h["eof1"]), None)
            elif rec.run["mode"] == "ctx":
                if cr.out.kind == "capture" or self.opt(cr, "pty"):
                    read = rec.read_eof or rec.iter_done
                if cr.err.kind == "capture" and read:
                    read = max(read, rec.err_eof) if rec.err_eof else None
            slow = cr.subs or self.has_fork(cr) or any(s.kind in ("writer",) for s in (cr.out, cr.err)) \
                or rec.run["mode"] == "aiter" or cr.src.kind in ("reader",) or not read or self.latest(p.exit_time, read) >= fire - m
            outer = w and rec.end >= rec.start + w[1] - EPS    # (the enclosing timeout)
            if not slow and (timed and not outer or any(s for s in sigs if s[0] >= fire - EPS)):
                self.bad(["C07"], "timeout-after-exit", f"T={T}: process ended {p.exit_time - L:.4f}s after launch, outcome {o[0]}")

    # ------------------------------------------------------------------ C08
    def c08(self, rec):
        groups = [rec.members] if len(rec.members) > 1 else []
        for cr in rec.cmds:
            for _, members, w in cr.subs:
                if len(members) > 1:
                    groups.append(members)
        for members in groups:
            for a, b in zip(members, members[1:]):
                if a.proc is None or b.proc is None or len(a.procs) != 1 or len(b.procs) != 1:
                    continue
                if self.has_fork(a) or self.has_fork(b) or self.opt(a, "pty") or self.opt(b, "pty"):
                    continue
                fds = {1, 2} if a.err.kind == "stdout" else {1}
                w = self.out_bytes(a.proc, fds)
                r = bytes(b.proc.read.get(0, b""))
                if not w.startswith(r):
                    self.bad(["C08"], "pipe-data", f"{a.prog}|{b.prog}: {diff(r, w)}")
                elif 0 in b.proc.eof and r != w:
                    self.bad(["C08"], "pipe-truncated", f"{a.prog}|{b.prog}: {len(r)} of {len(w)}")
        if len(rec.members) < 2:
            return
        sts = [self.stop(cr) for cr in rec.members]
        if any(not self.opt(cr, "audit", True) for cr in rec.members) or self.errs:
            return
        for cr, st in zip(rec.members, sts):
            res = st.get("result") if st else None
            p = cr.proc
            if res is not None and p is not None:
                if res.exit_code not in self.ok_codes(cr):
                    self.bad(["C05", "C08"], "member-status", f"{cr.prog}: {res.exit_code} real {p.exit_code}")
        o = rec.outcome
        final = self.result_of(rec)
        if rec.run["mode"] == "prompt" and o[0] == "ok":
            final = o[1]
        if final is None or any(st is None or st["failure"] or "result" not in st for st in sts):
            return
        if rec.cancels or rec.run.get("wrap") or rec.body_exc or rec.broke:
            return
        if any(cr.subs for cr in rec.members):
            return  # (a member may report a substituted command's status)
        res = [st["result"] for st in sts]
        key = next((r for r in res if not r.cancelled and r.exit_code != 0), None)
        if key is None:
            key = res[-1]
            if any(r.cancelled for r in res):
                return
        if final.exit_code != key.exit_code:
            self.bad(["C08"], "pipeline-status", f"reported {final.exit_code}, members {[(r.exit_code, r.cancelled) for r in res]}")
        elif final.error_bytes != key.error_bytes:
            self.bad(["C08"], "pipeline-error-text", f"{diff(final.error_bytes, key.error_bytes)}")
        if final.output_bytes != res[-1].output_bytes:
            self.bad(["C08"], "pipeline-output", diff(final.output_bytes, res[-1].output_bytes))
        if rec.run["mode"] in ("await", "ctx"):
            allowed = self.allowed(rec, rec.members[-1])
            bad_code = allowed is not None and key.exit_code not in allowed
            raised = o[0] == "exc" and isinstance(o[1], ResultError)
            if bad_code and o[0] == "ok":
                self.bad(["C08"], "pipeline-error-not-raised", f"status {key.exit_code}")
            if raised and not bad_code and not o[1].result.cancelled:
                self.bad(["C08"], "pipeline-error-raised", f"status {key.exit_code}")

    # ------------------------------------------------------------------ C09
    def c09(self, rec):
        if len(rec.members) < 2:
            return
        o = rec.outcome
        fails = {}
        tfail = None
        for cr in rec.cmds:
            for a in cr.audit:
                if a["phase"] == "stop" and a["failure"] and a["failure"] != "CancelledError":
                    if cr.role[0] == "cmd":
                        fails[a["failure"]] = cr
                    # In a block or loop only the first and the last command are waited
                    # for; the failure of another is noticed when the block ends.
                    if rec.run["mode"] == "await" or cr is rec.members[0] or cr is rec.members[-1]:
                        tfail = a["t"] if tfail is None else min(tfail, a["t"])
        causes = self.causes(rec)
        # (the end of a member by its own timeout is noticed like its failure)
        # (unless the status it leaves is one that it may have)
        prompt = self.causes(rec, timers=False)
        if rec.run["mode"] == "await":
            prompt += [x for x, cr in self.member_timers(rec) if cr.proc.exit_time is not None
                       and not (cr is rec.members[-1] and rec.run.get("result") == "result")
                       and cr.proc.exit_code not in self.allowed_sub(cr, None) and cr.proc.exit_time <= x + 2 * self.ct(cr) + 4]
            prompt.sort()
        t0s = [t for t in (tfail, prompt[0] if prompt else None) if t is not None]
        if t0s:
            t0 = min(t0s)
            b = 1.0
            for cr in rec.cmds:
                b += 2 * self.ct(cr) + 4.0 + (3.5 if self.has_op(cr, "dstate") else 0)
            slow = rec.run.get("iter", {}).get("sleep")   # the consumer takes its time
            if not slow and rec.end > t0 + b + self.stall(t0, rec.end) + self.slack(t0):
                self.bad(["C09"], "slow-teardown", f"failed/cancelled at {t0 - self.k.t0:.4f}, ended at {rec.end - self.k.t0:.4f}")
        if any(cr.subs for cr in rec.members):
            return
        dst = any(self.has_op(cr, "dstate") for cr in rec.cmds)
        if fails and not causes:
            if o[0] == "ok" or (o[0] == "exc" and isinstance(o[1], ResultError)) or o[0] == "cancelled":
                self.bad(["C09"], "launch-error-lost", f"members failed with {sorted(fails)}, outcome {o[0]} {o[1]!r}"[:300])
            elif self.collateral(o[1]):
                pass    # another member's input broke at the same time
            elif dst and set(fails) == {"RuntimeError"}:
                pass    # (could not be killed, which is not why the run failed)
            elif dst and any(self.launch_spec(cr) for cr in rec.members if not cr.spec["opts"].get("audit", True)):
                pass    # an unaudited command failed first, and another could not be killed
            elif isinstance(o[1], RuntimeError) and self.stall(rec.start, rec.end) >= 3.0 - EPS:
                pass    # the loop was stalled for so long that the grace periods passed
            elif errname(o[1]) not in fails and not (dst and isinstance(o[1], (RuntimeError, TypeError))) and not self.errs:
                self.bad(["C09"], "launch-error-replaced", f"members failed with {sorted(fails)}, outcome {o[1]!r}"[:300])
        if self.errs or fails or any(self.launch_spec(c) for c in rec.cmds):
            return
        members = [cr.proc for cr in rec.members]
        if rec.cancels and causes and rec.cancels[0] == causes[0] and not rec.run.get("wrap"):
            t = rec.cancels[0]
            live = [p for p in members if p is not None and self.alive(p, t, self.slack(t)) and p.spawn_time < t]
            broken = o[0] == "exc" and isinstance(o[1], (BrokenPipeError, ConnectionResetError))
            dying = any(p is not None and p.exit_time is not None and p.exit_time <= t + self.slack(t)
                        and (p.exit_code != 0 or broken) for p in members)
            caught = self.opt(rec.members[-1], "catch_cancel") and (
                (o[0] == "exc" and isinstance(o[1], ResultError) and o[1].result.cancelled)
                or (o[0] == "ok" and rec.run["mode"] in ("aiter", "prompt")))
            if live and o[0] != "cancelled" and not caught and not (o[0] == "exc" and dst and isinstance(o[1], (RuntimeError, TypeError))) \
                    and not dying and not rec.last_resort and rec.body_exc is None:
                self.bad(["C09"] + (["C12"] if rec.run["mode"] == "prompt" else []), "cancel-outcome",
                         f"{rec.run['mode']}: pipeline cancelled while running, but {o[0]} {o[1]!r}"[:300])
        if rec.body_exc is not None and not rec.cancels and o[1] is not rec.body_exc and not dst:
            self.bad(["C09"], "body-exception-lost", f"{rec.run['mode']}: {o[0]} {o[1]!r}"[:300])

    # ------------------------------------------------------------------ C10
    def c10(self, cr):
        if not cr.subs:
            return
        rec = cr.rec
        p = cr.proc
        normal = self.normal(cr)
        o = rec.outcome
        for arg, members, w in cr.subs:
            last = members[-1]
            firstm = members[0]
            key = f"a{arg}"
            if normal:
                for m in members:
                    if not m.procs:
                        self.bad(["C10"], "sub-not-started", f"{cr.prog} arg {arg}: {m.prog}")
            if p is None:
                continue
            if any(self.has_fork(m) or len(m.procs) > 1 for m in members) or self.has_fork(cr):
                continue
            if not w and last.proc is not None:
                fds = {1, 2} if last.err.kind == "stdout" else {1}
                exp = self.out_bytes(last.proc, fds)
                got = p.extra.get("in:" + key)
                if got is not None:
                    if not exp.startswith(got):
                        self.bad(["C10"], "sub-data", f"{cr.prog}: {diff(got, exp)}")
                    elif p.extra.get("eof:" + key) and got != exp:
                        self.bad(["C10"], "sub-truncated", f"{cr.prog}: {len(got)} of {len(exp)}")
            elif w and firstm.proc is not None:
                exp = p.extra.get("out:" + key)
                got = bytes(firstm.proc.read.get(0, b""))
                if exp is not None and not exp.startswith(got):
                    self.bad(["C10"], "sub-input", f"{cr.prog}: {diff(got, exp)}")
                elif exp is not None and 0 in firstm.proc.eof and got != exp:
                    self.bad(["C10"], "sub-input-truncated", f"{cr.prog}: {len(got)} of {len(exp)}")
            # an error of a substituted command must not pass unnoticed
            plain = len(rec.members) == 1 or not any(self.opt(c, "exit_codes") for c in rec.cmds)
            if (o[0] == "ok" and normal and plain and cr.role[0] == "cmd"
                    and rec.run["mode"] in ("await", "ctx")):
                for m in members:
                    q = m.proc
                    if q is None or q.exit_code is None or q.lost:
                        continue
                    allowed = self.allowed_sub(m, members)
                    if len(rec.members) > 1 and (q.exit_code == 0 or (
                            isinstance(o[1], Result) and o[1].exit_code != 0)):
                        continue
                    if len(members) == 1 and q.exit_code not in allowed:
                        self.bad(["C10"], "sub-error-lost", f"{m.prog} status {q.exit_code} but the run succeeded")

    def allowed_sub(self, m, members):
        e = self.opt(m, "exit_codes")
        return set(e) if e else {0}

    # ------------------------------------------------------------------ C13
    def c13(self, rec):
        run = rec.run
        uses = run["mode"] == "aiter" or any(op[0] == "lines" for op in run.get("body", ()))
        if not uses:
            return
        cr = rec.members[-1]
        p = cr.proc
        if p is None:
            if rec.lines:
                self.bad(["C13"], "lines-without-process", repr(rec.lines[:3]))
            return
        if self.has_fork(cr) or len(cr.procs) != 1:
            return
        stdout_dev = cr.out.kind == "devnull" and cr.err.kind == "stdout"
        if self.opt(cr, "pty"):
            pty = self.pty_of(cr)
            if pty is None:
                return
            exp = bytes(pty.olog)
        elif stdout_dev:
            exp = self.out_bytes(p, {2})
        else:
            exp = self.out_bytes(p, {1, 2} if cr.err.kind == "stdout" else {1})
        # A pipeline decodes with its last command's encoding.
        enc = self.opt(cr, "encoding", "utf-8").split()
        lines = split_lines(exp)
        n = len(rec.lines)
        try:
            want = [x.decode(*enc) for x in lines]
        except UnicodeDecodeError:
            return
        torn = bool(self.lib_sigs(p)) or (bool(cr.subs) and any(
            c.proc is None or c.proc.exit_code != 0 for c in rec.cmds if c.role[0] == "sub"))
        if rec.lines and n <= len(want) and rec.lines != want[:n] and (torn or rec.outcome[0] != "ok") \
                and rec.lines[:-1] == want[:n - 1] and want[n - 1].startswith(rec.lines[-1]):
            return      # torn down in the middle of a line
        if rec.lines != want[:n]:
            # a partial line may only be delivered at end-of-file
            self.bad(["C13"], "lines-wrong", diff(rec.lines, want[:n]))
            return
        if rec.iter_done and n != len(want) and not self.errs:
            if not torn and not (self.opt(cr, "catch_cancel") and (
                    self.causes(rec) or self.opt(cr, "timeout") is not None)):
                self.bad(["C13"], "lines-missing", f"{n} of {len(want)} lines")
        if rec.outcome[0] == "ok" and run["mode"] == "aiter" and not rec.broke and not rec.iter_done and rec.body_exc is None:
            self.bad(["C13"], "iteration-ended", "loop ended without exhausting the output")

    # ------------------------------------------------------------------ C14
    def c14(self, cr):
        if not self.opt(cr, "audit", True):
            return
        rec = cr.rec
        a = cr.audit
        phases = [x["phase"] for x in a]
        p = cr.proc
        if not a:
            if cr.procs:
                self.bad(["C14"], "audit-missing", f"{cr.prog} ran without callbacks")
            return
        if cr.spec.get("audit_raise"):
            return
        if phases[0] != "start" or phases.count("start") != 1:
            self.bad(["C14"], "audit-start", f"{cr.prog} {phases}")
        if phases.count("stop") != 1 or phases[-1] != "stop":
            self.bad(["C14"], "audit-stop", f"{cr.prog} {phases}")
            return
        st = a[-1]
        if cr.procs and p.state == "run" and st["t"] <= rec.end and p.exit_time is None:
            pass
        if not cr.procs and not st["failure"]:
            self.bad(["C14"], "audit-failure-empty", f"{cr.prog}: not launched but failure is empty")
        if self.normal(cr) and st["failure"]:
            self.bad(["C14"], "audit-failure", f"{cr.prog}: {st['failure']}")
        if not cr.procs and len(rec.members) == 1 and cr.role[0] == "cmd":
            o = rec.outcome
            name = "CancelledError" if o[0] == "cancelled" else errname(o[1]) if o[0] == "exc" else None
            if self.opt(cr, "catch_cancel") and name == "ResultError":
                name = "CancelledError"
            if name and st["failure"] != name and not rec.run.get("wrap"):
                self.bad(["C14"], "audit-failure-name", f"{cr.prog}: {st['failure']} but the run raised {name}")
        sigs = [x for x in a if x["phase"] == "signal"]
        if p is None or len(cr.procs) != 1:
            if sigs and not cr.procs:
                self.bad(["C14"], "audit-signal-without-process", f"{cr.prog}")
            return
        if self.errs and any(f.startswith("kill") for f in self.errs):
            return
        kills = [signame(s) for t, s, who in p.sigs if who == "lib"]
        names = [x["signal"] for x in sigs]
        i = 0
        for x in sigs:
            if i < len(kills) and x["signal"] == kills[i]:
                i += 1
            elif p.exit_time is not None and p.exit_time <= x["t"] + 1e-9:
                continue  # it had ended already: nothing was sent
            else:
                self.bad(["C14"], "audit-signals", f"{cr.prog}: announced {names}, sent {kills}")
                return
        if i < len(kills):
            # asyncio's transport kills what is left when it is closed
            self.bad(["C14"], "audit-signal-missing", f"{cr.prog}: announced {names}, sent {kills}")

    # ------------------------------------------------------------------ C17
    def pty_of(self, cr):
        p = cr.proc
        if p is None:
            return None
        ids = [i for i in p.extra.get("ttyid", ()) if i is not None]
        if ids:
            return self.k.ptys.get(ids[0])
        if p.ctty is not None:
            return p.ctty
        return None

    def c17(self, cr):
        spec = self.opt(cr, "pty")
        if not spec or (isinstance(spec, list) and spec[0] == "fail"):
            return
        p = cr.proc
        if p is None or len(cr.procs) != 1:
            return
        e = p.extra
        if "tty" in e:
            exp0 = cr.src.kind not in ("path", "devnull", "fileobj", "filefd", "fd", "inherit") and (
                cr.role[0] == "cmd" and cr.role[1] == 0)
            exp1 = cr.out.kind in ("default", "buffer", "capture", "bytearray", "bytesio", "stringio", "logger", "writer")
            if cr.role[1] != len(cr.rec.members) - 1:
                exp1 = False
            if e["tty"][0] != exp0 or e["tty"][1] != exp1:
                self.bad(["C17"], "not-a-terminal", f"{cr.prog}: {e['tty']}, expected {[exp0, exp1]}")
            if e["ctty"] is None or not e["sid"]:
                self.bad(["C17"], "no-controlling-terminal", f"{cr.prog}: {e}")
            elif any(i is not None and i != e["ctty"] for i in e["ttyid"]):
                self.bad(["C17"], "wrong-terminal", f"{cr.prog}: {e}")
        if "term" in e:
            # how the terminal was set up when the program started
            lflag, size = e["term"]
            canon, echo, isig = (bool(lflag & f) for f in (termios.ICANON, termios.ECHO, termios.ISIG))
            how, want_size = (spec[0], tuple(spec[1:3])) if isinstance(spec, list) else ("cooked", (0, 0))
            want = {"cooked": (True, spec[3] if isinstance(spec, list) and how == "cooked" else True, True),
                    "cbreak": (False, False, True), "raw": (False, False, False)}[how]
            if (canon, echo, isig) != want:
                self.bad(["C17"], "terminal-mode", f"{cr.prog}: asked for {spec}, canonical/echo/signals are {(canon, echo, isig)}")
            if any(want_size) and size != want_size:
                self.bad(["C17"], "terminal-size", f"{cr.prog}: asked for {spec}, the size is {size}")
        if not self.normal(cr) or self.has_fork(cr):
            return
        pty = self.pty_of(cr)
        if pty is None:
            return
        st = self.stop(cr)
        res = st.get("result") if st else self.result_of(cr.rec)
        exp = bytes(pty.olog)
        kind = cr.out.kind
        mode = cr.rec.run["mode"]
        got = None
        if mode == "prompt":
            return
        if kind in ("default", "buffer") and mode != "aiter" and res is not None and not (
                mode == "ctx" and kind == "capture"):
            got = res.output_bytes
        elif kind == "bytearray":
            got = bytes(cr.out.obj)
            if cr.out.append:
                exp = cr.out.pre + exp
        elif kind == "bytesio":
            got = cr.out.obj.getvalue()
            if cr.out.append:
                exp = cr.out.pre + exp
        elif kind == "capture" and cr.rec.read_eof:
            got = bytes(cr.rec.got)
        if got is not None and got != exp:
            # a hang-up caused by ourselves may cut the output of a dying process
            self.bad(["C17"], "pty-output", f"{cr.prog} {kind}: {diff(got, exp)}")

    # ------------------------------------------------------------------ C19
    def c19(self, cr):
        for p in cr.procs:
            f = p.exec_fds
            if f is None:
                continue
            argv = p.argv
            subst = set()
            for a in argv[1:]:
                if isinstance(a, str) and a.startswith("/dev/fd/"):
                    subst.add(int(a[8:]))
            exp = set(cr.pass_fds) | subst
            if len(subst) != len(cr.subs):
                self.bad(["C19", "C10"], "subst-args", f"{cr.prog}: {argv}")
            extra = set(f) - {0, 1, 2}
            if self.opt(cr, "close_fds", True) is False and not exp:
                allowed = {fd for fd, part in self.sim.inh_fds.items() if part <= cr.rec.run.get("loop", 0)}
                if not allowed <= extra:
                    self.bad(["C19"], "inheritable-missing", f"{cr.prog}")
                extra -= allowed
            if extra != exp:
                self.bad(["C19", "C10"] if subst - extra else ["C19"],
                         "extra-descriptors" if extra - exp else "missing-descriptors",
                         f"{cr.prog}: has {sorted(extra)}, expected {sorted(exp)}")
            if not {0, 1, 2} <= set(f):
                self.bad(["C19"], "missing-standard-stream", f"{cr.prog}: {sorted(f)}")
            ends = {}
            for fd, (oid, kind, ident) in f.items():
                if kind in ("pr", "pw"):
                    ends.setdefault(ident, set()).add(kind)
                if kind in ("ptm", "epoll", "pidfd"):
                    self.bad(["C19"], "internal-descriptor", f"{cr.prog}: fd {fd} {kind}")
            for ident, kinds in ends.items():
                if len(kinds) == 2 and not self.opt(cr, "pass_fds"):
                    self.bad(["C19"], "both-ends", f"{cr.prog} holds both ends of pipe {ident}")

    # ------------------------------------------------------------------ C20
    def launch_spec(self, cr):
        "(exception type names, errno) this command must fail with, from the spec."
        prog = self.spec["programs"][cr.prog]
        s = cr.spec
        out = []
        if prog.get("missing"):
            out.append(("FileNotFoundError", None))
        if prog.get("noexec"):
            out.append(("FileNotFoundError", None))
        if prog.get("exec_err"):
            out.append(("OSError", prog["exec_err"]))
        if s.get("audit_raise") == "start":
            out.append(("UserError", None))
        pty = s.get("opts", {}).get("pty")
        if isinstance(pty, list) and pty[0] == "fail":
            out.append(("OSError", pty[1]))
        for which in ("stdin", "stdout", "stderr"):
            x = s.get(which)
            if not x:
                continue
            if x[0] == "badtype":
                out.append(("TypeError", None))
            elif x[0] == "path":
                path = x[1]
                node = self.k.files.get(path)
                if node is not None and node.err:
                    out.append(("OSError", node.err))
                elif path.startswith("/sim/nodir"):
                    out.append(("OSError", "ENOENT"))
                elif path in self.k.dirs:
                    out.append(("OSError", "EISDIR"))
                elif which == "stdin" and node is None:
                    out.append(("OSError", "ENOENT"))
        return out

    def matches(self, ex, want):
        name, num = want
        if num is not None:
            return isinstance(ex, OSError) and ex.errno == getattr(errno, num)
        return any(c.__name__ == name for c in type(ex).__mro__)

    def collateral(self, ex):
        "An error of another command, whose input broke or whose output was cut off."
        return isinstance(ex, (BrokenPipeError, ConnectionResetError, UnicodeDecodeError)) \
            or type(ex) is ValueError and "Separator" in str(ex)

    def unexplained(self, rec):
        "An error that has no cause."
        o = rec.outcome
        if o[0] != "exc" or isinstance(o[1], ResultError) or self.errs:
            return
        ex = o[1]
        mode = rec.run["mode"]
        if isinstance(ex, (UserError, UserExit)):
            ok = ex is rec.body_exc or any(ex is h["exc"] for h in rec.helpers) or any(
                cr.spec.get("audit_raise") for cr in rec.cmds)
        elif isinstance(ex, asyncio.TimeoutError):
            ok = mode == "prompt" or rec.run.get("wrap") or any(self.opt(cr, "timeout") is not None for cr in rec.cmds)
        elif isinstance(ex, UnicodeEncodeError):
            ok = any(self.opt(cr, "encoding", "utf-8").split()[0] != "utf-8" for cr in rec.cmds)
        elif self.collateral(ex) or isinstance(ex, EOFError) and mode == "prompt":
            ok = True
        else:
            ok = any(self.matches(ex, w) for cr in rec.cmds for w in self.launch_spec(cr))
            if isinstance(ex, (RuntimeError, TypeError)):
                ok = ok or self.stall(rec.start, rec.end) >= 3.0 - EPS or any(self.has_op(cr, "dstate") for cr in rec.cmds)
                ok = ok or "_cancel_waiter" in str(ex) and rec.helpers
        # The wait for a killed process was cancelled too.
        ok = ok or rec.shutdown and isinstance(ex, (TypeError, RuntimeError))
        if not ok:
            self.bad(["C20", "C05"] + (["C17"] if any(self.opt(cr, "pty") for cr in rec.cmds) else [])
                     + (["C09"] if len(rec.members) > 1 else []) + (["C11", "C12"] if mode == "prompt" else []),
                     "unexplained-error", f"{mode}: {ex!r}"[:300])

    def c20(self, rec):
        self.unexplained(rec)
        o = rec.outcome
        specs = []
        for cr in rec.members:
            specs += self.launch_spec(cr)
        subspecs = []
        for cr in rec.cmds:
            if cr.role[0] == "sub":
                subspecs += self.launch_spec(cr)
        causes = self.causes(rec)
        if specs and not self.errs and not causes:
            if o[0] != "exc":
                if not (len(rec.members) > 1 and o[0] == "cancelled"):
                    self.bad(["C20"], "launch-error-lost", f"expected {specs}, outcome {o[0]}")
                else:
                    self.bad(["C20", "C09"], "launch-error-lost", f"expected {specs}, outcome {o[0]}")
            elif len(rec.cmds) > 1 and self.collateral(o[1]):
                pass    # another member's input broke at the same time
            elif isinstance(o[1], RuntimeError) and self.stall(rec.start, rec.end) >= 3.0 - EPS:
                pass    # the loop was stalled for so long that the grace periods passed
            elif isinstance(o[1], (RuntimeError, TypeError)) and len(rec.cmds) > 1 and any(self.has_op(c, "dstate") for c in rec.cmds):
                pass    # another member could not be killed
            elif not any(self.matches(o[1], w) for w in specs + subspecs):
                self.bad(["C20"] + (["C09"] if len(rec.members) > 1 else []), "launch-error-replaced",
                         f"expected {specs}, got {o[1]!r}"[:300])
            if len(rec.members) == 1 and rec.end - rec.start > 0.1 + self.stall(rec.start, rec.end) + 8 * len(rec.cmds):
                self.bad(["C20"], "launch-error-late", f"{rec.end - rec.start:.4f}s")
        if specs or subspecs or causes or len(self.sim.recs) > 1:
            return
        # One injected failure of a system call on the launch path.
        if len(self.errs) != 1 or any(self.opt(c, "timeout") is not None for c in rec.cmds):
            return
        sysname, num = self.errs[0].split(":")
        if sysname not in ("pipe", "fork", "exec", "open", "openpty", "tcgetattr", "ttyname", "audit", "tcsetattr"):
            return
        if self.k.fired[self.errs[0]] != 1:
            return
        if sysname in ("tcgetattr", "tcsetattr") and rec.run["mode"] == "prompt":
            return
        if len(rec.members) > 1 and any(
                c.proc is not None and c.proc.exit_code not in (self.opt(c, "exit_codes") or [0]) and (c.proc.exit_code != -13 or any(m.subs for m in rec.members))
                and not self.lib_sigs(c.proc) for c in rec.members):
            return      # the failure of another member stopped this one first
        ok = o[0] == "exc"
        if ok:
            ex = o[1]
            if sysname == "audit":
                ok = isinstance(ex, RuntimeError) and "veto" in str(ex)
            elif sysname in ("tcgetattr", "tcsetattr"):
                ok = ex.args and ex.args[0] == getattr(errno, num)
            else:
                ok = isinstance(ex, OSError) and ex.errno == getattr(errno, num)
            if sysname == "openpty" and isinstance(ex, OSError):
                ok = True       # pty.openpty() replaces it
            if isinstance(ex, ResultError) and any(c.role[0] == "sub" and c.proc is not None for c in rec.cmds):
                ok = True       # another substitution failed first
            if self.collateral(ex) and len(rec.cmds) > 1:
                ok = True       # another command's input broke at the same time
            if isinstance(ex, (RuntimeError, TypeError)) and any(self.has_op(c, "dstate") for c in rec.cmds):
                ok = True       # another command cannot be killed
        if not ok:
            self.bad(["C20"] + (["C09"] if len(rec.members) > 1 else []) + (["C10"] if any(c.subs for c in rec.cmds) else []),
                     "fault-not-reported", f"{self.errs[0]}: outcome {o[0]} {o[1]!r}"[:300])

    # ------------------------------------------------------------------ C21
    def c21(self):
        sim = self.sim
        if self.std_orphan:
            return
        for t in sim.left_tasks:
            if self.unwatched and "/shellous/" in getattr(getattr(t.get_coro(), "cr_code", None), "co_filename", ""):
                continue
            self.bad(["C21"], "task-left", repr(t.get_name())[:100] + " " + getattr(t.get_coro(), "__qualname__", ""))
        for h in sim.left_timers:
            if self.unwatched:
                continue
            self.bad(["C21", "C07"], "timer-left", repr(h)[:150])
        for ctx in sim.loop.unhandled:
            ex = ctx.get("exception")
            if self.errs and not from_shellous(ctx):
                continue
            if isinstance(ex, ResultError) and self.stall(self.k.t0, self.k.now) >= 10:
                continue    # the loop was stalled for so long that tasks were given up
            if isinstance(ex, AssertionError) and "_process_exited" in str(ctx.get("message")) and not from_shellous(ctx) \
                    and any(self.has_op(c, "dstate") for r in sim.recs for c in r.cmds):
                continue    # (CPython, about a process that could not be killed)
            if isinstance(ex, asyncio.InvalidStateError) and "pipe_connection_lost" in str(ctx.get("message")) \
                    and not from_shellous(ctx) \
                    and (any(t1 - t0 >= 0.25 for t0, t1 in self.k.stall_log) or any(r.shutdown for r in sim.recs)):
                continue    # (CPython: wait_closed() was given up in a stall, or cancelled at shutdown, before the pipe was aborted)
            self.bad(["C21"], "unhandled-" + (type(ex).__name__ if ex else "error"),
                     f"{ctx.get('message')!r} {ex!r}"[:300])
        for name, ex in self.k.thread_errors:
            if self.errs or (name.startswith("asyncio-waitpid") and isinstance(ex, KeyError)):
                continue    # (CPython's ThreadedChildWatcher trips over reused pids)
            self.bad(["C21", "C16"], "thread-error", f"{name}: {ex!r}")

    # -------------------------------------------------------- C11 and C12
    def prompt(self, rec):
        if rec.run["mode"] != "prompt":
            return
        from . import prompt_oracle
        prompt_oracle.judge(self, rec)


def from_shellous(ctx):
    ex = ctx.get("exception")
    tb = getattr(ex, "__traceback__", None)
    while tb is not None:
        if "/shellous/" in tb.tb_frame.f_code.co_filename:
            return True
        tb = tb.tb_next
    return False


def signame(s):
    try:
        return signal.Signals(s).name
    except ValueError:
        return str(s)


def split_lines(data):
    out = data.split(b"\n")
    tail = out.pop()
    out = [x + b"\n" for x in out]
    if tail:
        out.append(tail)
    return out


def diff(got, exp):
    n = min(len(got), len(exp))
    i = 0
    while i < n and got[i] == exp[i]:
        i += 1
    return f"got {len(got)}, expected {len(exp)}, first difference at {i}: {got[i:i + 20]!r} / {exp[i:i + 20]!r}"
