"""Scenario generators: from a property id and a seed to a spec (plain JSON)."""

import logging
import random
import re

SIGS = ["SIGTERM", "SIGINT", "SIGHUP", "SIGUSR1"]

BASE = dict(
    nruns=[(1, 8), (2, 2), (3, 1)],
    modes=[("await", 6), ("ctx", 3), ("aiter", 2)],
    npipe=[(1, 7), (2, 2), (3, 1), (4, 0)],
    sub=0.08,
    pty=0.06,
    big=0.35,
    abort=0.3,
    aborts=[("cancel", 6), ("timeout", 2), ("wrap", 1), ("body", 2)],
    hang=0.5,          # of aborted runs, programs that never end by themselves
    disp=0.25,         # programs with unusual signal dispositions (aborted runs)
    exits=0.25,
    extkill=0.04,
    faults=0.06,
    launch=0.04,       # launch failures
    fork=0.04,
    sinks=0.5,
    sources=0.6,
    ext_err=0.3,
    noread=0.2,
    fds=0.08,
    catch=0.06,
    ret=0.3,
    cancels2=0.15,
    stall=0.15,
    waitfault=0.02,
    audit_raise=0.0,
    control=0.03,
    helpers=0.02,
    tiny=0.3,
    selfcancel=0.04,
    auditcb=0.9,
)

KNOBS = {
    "C01": dict(abort=0.65, hang=0.6, fork=0.06, sub=0.15, launch=0.08, faults=0.12, cancels2=0.25,
                modes=[("await", 5), ("ctx", 3), ("aiter", 2), ("prompt", 1)], npipe=[(1, 5), (2, 3), (3, 1)]),
    "C02": dict(abort=0.45, sub=0.18, pty=0.15, fds=0.3, launch=0.2, faults=0.25, auditcb=0.7, selfcancel=0.08,
                npipe=[(1, 5), (2, 3), (3, 2)],
                modes=[("await", 5), ("ctx", 3), ("aiter", 2), ("prompt", 2)]),
    "C03": dict(abort=0.08, sinks=0.9, launch=0.0, faults=0.03, big=0.6, sub=0.03, pty=0.0, ext_err=0.7,
                npipe=[(1, 8), (2, 2)], modes=[("await", 8), ("ctx", 3)], tiny=0.5, hang=0.2),
    "C04": dict(abort=0.08, sources=0.97, launch=0.0, faults=0.02, big=0.6, sub=0.03, pty=0.05, noread=0.3,
                npipe=[(1, 8), (2, 2)], modes=[("await", 8), ("ctx", 3)], tiny=0.5, hang=0.2),
    "C05": dict(abort=0.4, fork=0.12, exits=0.8, extkill=0.3, npipe=[(1, 1)], catch=0.35, ret=0.6, waitfault=0.12,
                modes=[("await", 7), ("ctx", 3), ("prompt", 1)], sub=0.02, launch=0.02, disp=0.4),
    "C06": dict(abort=1.0, fork=0.08, aborts=[("cancel", 7), ("body", 3)], hang=0.8, disp=0.6, npipe=[(1, 1)], sub=0.0,
                faults=0.0, launch=0.0, extkill=0.05, cancels2=0.1, pty=0.1, catch=0.15,
                modes=[("await", 5), ("ctx", 4), ("aiter", 2), ("prompt", 1)], selfcancel=0.08),
    "C07": dict(abort=1.0, fork=0.07, aborts=[("timeout", 1)], hang=0.5, disp=0.3, npipe=[(1, 12), (2, 1), (3, 1)], sub=0.04, faults=0.02,
                launch=0.04, extkill=0.08, pty=0.08, catch=0.15, stall=0.3,
                modes=[("await", 6), ("ctx", 4), ("aiter", 2), ("prompt", 1)], nruns=[(1, 6), (2, 3)]),
    "C08": dict(abort=0.05, npipe=[(2, 5), (3, 4), (4, 2)], exits=0.5, launch=0.0, faults=0.02, sub=0.04, pty=0.0,
                tiny=0.5, big=0.5, hang=0.2, modes=[("await", 7), ("ctx", 2), ("aiter", 1)], noread=0.3, ret=0.5),
    "C09": dict(abort=0.6, npipe=[(2, 5), (3, 4), (4, 2)], launch=0.5, faults=0.25, sub=0.06, pty=0.04, disp=0.3,
                modes=[("await", 4), ("ctx", 3), ("aiter", 2), ("prompt", 2)], selfcancel=0.08, hang=0.6),
    "C10": dict(abort=0.25, sub=1.0, launch=0.12, exits=0.3, faults=0.08, pty=0.03, tiny=0.4,
                npipe=[(1, 7), (2, 2)], disp=0.2),
    "C13": dict(modes=[("aiter", 1)], abort=0.3, aborts=[("cancel", 4), ("body", 8), ("timeout", 2)], big=0.5,
                launch=0.03, faults=0.03, npipe=[(1, 6), (2, 3), (3, 1)], tiny=0.4, exits=0.3),
    "C14": dict(abort=0.6, launch=0.2, faults=0.15, sub=0.15, auditcb=1.0, npipe=[(1, 5), (2, 3), (3, 1)],
                modes=[("await", 5), ("ctx", 3), ("aiter", 2), ("prompt", 1)], disp=0.4, selfcancel=0.06),
    "C17": dict(pty=1.0, npipe=[(1, 9), (2, 1)], abort=0.3, launch=0.12, faults=0.15, sub=0.03, fork=0.03, tiny=0.4,
                modes=[("await", 6), ("ctx", 3), ("aiter", 2), ("prompt", 2)]),
    "C19": dict(nruns=[(2, 3), (3, 4), (4, 3)], abort=0.15, sub=0.25, pty=0.15, fds=0.4, launch=0.05, faults=0.04,
                npipe=[(1, 4), (2, 4), (3, 2)], big=0.1,
                modes=[("await", 5), ("ctx", 3), ("aiter", 1), ("prompt", 1)]),
    "C20": dict(launch=1.0, faults=0.0, abort=0.05, sub=0.15, pty=0.2, fds=0.3, npipe=[(1, 7), (2, 3), (3, 1)],
                modes=[("await", 5), ("ctx", 3), ("aiter", 2), ("prompt", 2)], big=0.1),
    "C21": dict(abort=0.6, launch=0.15, faults=0.15, sub=0.12, pty=0.1, npipe=[(1, 5), (2, 3), (3, 1)],
                modes=[("await", 5), ("ctx", 3), ("aiter", 2), ("prompt", 2)], disp=0.3, selfcancel=0.06),
    "C22": dict(abort=0.03, launch=0.0, faults=0.02, big=0.9, tiny=0.6, sub=0.2, npipe=[(1, 5), (2, 4), (3, 3), (4, 1)],
                ext_err=0.7, hang=0.0, modes=[("await", 7), ("ctx", 3), ("aiter", 2), ("prompt", 1)], pty=0.05),
    "C26": dict(modes=[("ctx", 1)], npipe=[(1, 1)], helpers=0.9, abort=0.4, exits=0.4, hang=0.4, disp=0.3, launch=0.03,
                nruns=[(1, 8), (2, 3)], faults=0.04, sub=0.08, pty=0.08, tiny=0.3, fork=0.05),
    "C25": dict(modes=[("ctx", 1)], npipe=[(1, 9), (2, 1)], control=0.85, abort=0.3, exits=0.6, extkill=0.3, hang=0.4, disp=0.4,
                launch=0.03, faults=0.03, waitfault=0.05, sub=0.05, big=0.2, nruns=[(1, 3), (2, 3), (3, 1)]),
    "C11": dict(modes=[("prompt", 1)], npipe=[(1, 6), (2, 2)], pty=0.25, abort=0.12, launch=0.0, faults=0.03,
                sub=0.0, fork=0.0, exits=0.2),
    "C12": dict(modes=[("prompt", 1)], npipe=[(1, 6), (2, 2)], pty=0.2, abort=0.25, launch=0.03, faults=0.03,
                sub=0.0, fork=0.02, exits=0.2),
}


class Gen:
    def __init__(self, prop, seed):
        self.prop = prop
        self.r = random.Random(f"spec/{prop}/{seed}")
        self.K = dict(BASE)
        self.K.update(KNOBS.get(prop, {}))
        self.programs = {}
        self.files = []
        self.dirs = ["/sim/d"]
        self.n = 0
        self.npath = 0

    # -------------------------------------------------------------- helpers
    def p(self, name):
        return self.r.random() < self.K[name]

    def coin(self, x):
        return self.r.random() < x

    def w(self, table):
        tot = sum(x for _, x in table)
        v = self.r.random() * tot
        for item, x in table:
            v -= x
            if v < 0:
                return item
        return table[-1][0]

    def c(self, seq):
        return seq[int(self.r.random() * len(seq))]

    def uid(self):
        self.n += 1
        return self.n

    def path(self, tag):
        self.npath += 1
        return f"/sim/d/{tag}{self.npath}"

    def size(self, big=None):
        vol = self.vol
        if big is None:
            big = self.p("big")
        if big:
            return 1 + int(self.r.random() * vol)
        k = self.r.random()
        if k < 0.1:
            return 0
        if k < 0.3:
            return 1 + int(self.r.random() * 3)
        return 1 + int(self.r.random() * min(vol, 200))

    def data(self, enc="utf-8", n=None, big=None, kind=None):
        n = self.size(big) if n is None else n
        if kind is None:
            e = enc.split()[0]
            if e == "latin-1":
                kind = self.c(["bin", "line", "crlf"])
            elif enc == "utf-8 replace":
                kind = self.c(["bin", "utf8", "line"])
            elif enc == "utf-8" and self.safe:
                kind = self.c(["utf8", "line", "line"])
            else:
                kind = self.c(["line", "line", "crlf", "fill"])
        return ["gen", kind, self.uid(), n]

    # ----------------------------------------------------------------- spec
    def spec(self):
        r = self.r
        K = self.K
        if self.p("tiny"):
            cap = self.c([1, 2, 5, 16, 64, 256, [1, 64], [16, 4096, 1], [3, 65536]])
        else:
            cap = self.c([512, 4096, 4096, 65536, 65536, 65536, [4096, 512]])
        caps = cap if isinstance(cap, list) else [cap]
        self.mincap = min(caps)
        self.vol = max(64, min(300000, min(caps) * 150 + 60))
        kcfg = dict(
            cap=cap,
            pcap=self.c([1, 64, 4096, 4096]) if self.mincap > 16 else self.c([1, 16, 200]),
            reuse_fds=self.coin(0.8),
            reuse_pids=self.coin(0.3),
            world=self.c([0.05, 0.3, 0.5, 0.8, 0.95]),
            sys_world=self.c([0.0, 0.05, 0.2, 0.5]),
            short_read=self.c([0, 0, 0.1, 0.5]),
            short_write=self.c([0, 0, 0.1, 0.5]),
            eagain=self.c([0, 0, 0.05, 0.3]),
            child_delay=self.c([0, 0, 0.05, 0.3]),
            stall=self.c([0.002, 0.01, 0.05]) if self.p("stall") else 0,
            max_steps=400000,
        )
        loop = dict(
            watcher=self.c(["pidfd", "pidfd", "thread", "sh-epoll", "sh-thread"]),
            eager=self.coin(0.1),
            hash=1 + int(r.random() * 1e9),
        )
        if loop["hash"] % 32 == 7:
            loop["debug"] = True    # asyncio's debug mode
        if loop["hash"] % 16 == 3:
            loop["recovered"] = True    # the callers' tasks were cancelled before, and caught it
        runs = []
        nruns = self.w(K["nruns"])
        for i in range(nruns):
            runs.append(self.run(i))
        spec = dict(
            seed=int(r.random() * (1 << 40)),
            kcfg=kcfg, loop=loop, files=self.files, dirs=self.dirs, programs=self.programs,
            faults=[], runs=runs, conc="gather" if self.coin(0.75) else "seq",
        )
        if nruns > 1 and self.coin(0.2):
            # the program calls asyncio.run() twice
            spec["loops"] = 2
            for run in runs[1 + int(r.random() * (nruns - 1)):]:
                run["loop"] = 1
        if self.p("faults"):
            self.add_faults(spec)
        if self.p("waitfault"):
            spec["faults"].append(["waitpid", self.c([1, 1, 2]), "ECHILD"])
        return spec

    FAULTS = [
        (("pipe", ["EMFILE", "ENFILE"]), 5), (("fork", ["EAGAIN", "ENOMEM"]), 4),
        (("exec", ["ENOMEM", "EACCES", "E2BIG"]), 3), (("open", ["EMFILE", "EACCES", "ENOSPC"]), 2),
        (("openpty", ["EMFILE", "ENXIO"]), 2), (("pidfd_open", ["EMFILE"]), 2), (("epoll_register", ["ENOMEM", "ENOSPC"]), 2),
        (("read", ["EIO"]), 2), (("write", ["EIO", "ENOSPC", "EPIPE", "ECONNRESET"]), 2), (("tcgetattr", ["EIO"]), 1),
        (("tcsetattr", ["EIO"]), 1), (("ttyname", ["ENODEV"]), 1), (("thread_start", ["EAGAIN"]), 1),
        (("audit", ["EPERM"]), 2), (("close", ["EIO"]), 1), (("epoll", ["EMFILE"]), 1), (("kill", ["EPERM"]), 0),
    ]

    def add_faults(self, spec):
        for _ in range(self.c([1, 1, 1, 2])):
            name, errs = self.w(self.FAULTS)
            hi = {"pipe": 9, "read": 12, "write": 8, "close": 20, "epoll_register": 12}.get(name, 4)
            spec["faults"].append([name, 1 + int(self.r.random() * hi), self.c(errs)])

    # ------------------------------------------------------------------ run
    def run(self, i):
        K = self.K
        r = self.r
        self.rid = i
        self.safe = False
        mode = self.w(K["modes"])
        npipe = self.w(K["npipe"])
        abort = self.w(K["aborts"]) if self.p("abort") else None
        if mode == "prompt" and abort == "wrap":
            abort = "cancel"
        if mode == "await" and abort == "body":
            abort = "cancel"
        if npipe > 1 and abort == "timeout" and (mode == "prompt" or self.coin(0.3)):
            abort = "cancel"
        self.aborted = abort is not None
        self.safe = not self.aborted
        self.hangable = self.aborted and self.p("hang")
        self.ncmd = 0
        run = dict(id=i, mode=mode)
        if self.coin(0.2):
            run["delay"] = self.c([0.0, 0.001, 0.3, 2.0])
        want_pty = self.p("pty")
        self.mode = mode
        # where does the launch fail?
        fail_at = None
        if self.p("launch"):
            fail_at = int(r.random() * npipe)
        cmds = []
        for j in range(npipe):
            cmds.append(self.cmd(
                first=j == 0, last=j == npipe - 1, npipe=npipe,
                pty=want_pty and (npipe == 1 or (j == npipe - 1 and self.coin(.3))),
                fail=fail_at == j, depth=0, mode=mode))
        run["cmds"] = cmds
        self.shape(run, cmds)
        if mode == "await" and self.p("ret"):
            run["result"] = self.c(["result", "ret"])
        elif mode == "ctx" and self.coin(0.2):
            run["result"] = "result"
        if mode == "ctx":
            self.ctx_body(run, abort)
        elif mode == "prompt":
            self.prompt_body(run, abort)
        elif mode == "aiter":
            if abort == "body":
                run["iter"] = {self.c(["break", "break", "raise"]): self.c([1, 1, 2, 5, 20])}
            elif self.coin(0.2):
                run["iter"] = {"sleep": self.c([0.001, 0.1])}
        if abort == "body" and self.coin(0.15):
            run["exit"] = True      # what the block raises is not an `Exception`
        if abort == "timeout":
            self.timeouts(run)
        elif abort in ("cancel", "body", "wrap") and npipe == 1 and mode != "prompt" and self.coin(0.15):
            # ended by something else, with a timer that may expire meanwhile
            cmds[0]["opts"]["timeout"] = self.c([0.3, 0.7, 1.0, 1.5, 2.0, 3.0, 5.0])
            if self.coin(0.5):
                cmds[0]["opts"]["cancel_timeout"] = self.c([1.0, 5.0])
        if abort == "wrap":
            run["wrap"] = [self.c(["timeout", "wait_for"]), self.c([0.0001, 0.01, 0.5, 1.0, 3.0])]
        if abort == "cancel" or (abort == "body" and self.hangable and mode in ("aiter",)):
            self.cancels(run)
        elif self.hangable and abort in ("timeout", "body", "wrap") and mode != "ctx":
            pass
        if abort == "body" and self.hangable:
            # make sure that it ends
            run.setdefault("actions", []).append(dict(t=self.c([8.0, 20.0]), do=["cancel"]))
        if self.p("extkill"):
            cmd = self.c(cmds)
            if cmd["prog"] in self.programs:
                act = self.trigger(ext=True)
                act["do"] = ["kill", cmd["prog"], self.c(["SIGKILL", "SIGTERM", "SIGINT", "SIGSEGV", "SIGHUP"])]
                run.setdefault("actions", []).append(act)
        if self.aborted and abort == "cancel" and self.p("selfcancel"):
            run["selfcancel"] = True
        return run

    def trigger(self, ext=False):
        k = self.r.random()
        if k < 0.35:
            return dict(t=self.c([0.0, 0.0002, 0.003, 0.05, 0.3, 0.7, 1.0, 2.5, 6.0]))
        if k < 0.6:
            return dict(on="select", nth=1 + int(self.r.random() * 40))
        if k < 0.9:
            ev = self.c(["fork", "exec", "pidfd", "exit", "reap", "read", "write", "close", "pipe", "audit_start",
                         "audit_exec", "audit_stop", "pipe_eof", "signal", "open", "cfork", "thread"])
            nth = 1 + int(self.r.random() * {"read": 12, "write": 6, "close": 12, "pipe_eof": 8, "pipe": 8}.get(ev, 3))
            return dict(on=ev, nth=nth, after=self.c([0, 0, 1, 1, 2, 3, 4, 6]))
        return dict(t=self.r.random() * 3)

    def cancels(self, run):
        acts = run.setdefault("actions", [])
        a = self.trigger()
        a["do"] = ["shutdown"] if self.coin(0.08) else ["cancel"]
        acts.append(a)
        if self.p("cancels2"):
            for _ in range(self.c([1, 1, 2])):
                b = self.c([dict(t=a.get("t", 0) + self.c([0, 0.001, 0.5, 3.5])), self.trigger(),
                            dict(on="signal", nth=self.c([1, 2]), after=self.c([0, 1, 2, 3]))])
                b["do"] = ["cancel"]
                acts.append(b)
        if self.hangable:
            # the last resort: cancel later in any case
            acts.append(dict(t=self.c([9.0, 30.0]), do=["cancel"]))

    def timeouts(self, run):
        for cmd in run["cmds"]:
            cmd["opts"]["timeout"] = self.c([0, 0.0001, 0.001, 0.05, 0.3, 1.0, 1.0, 2.0, 5.0])
        if len(run["cmds"]) > 1:
            # (in a pipeline: of one or two of its members)
            k = 1 + int(self.r.random() * 1.3)
            keep = [int(self.r.random() * len(run["cmds"])) for _ in range(k)]
            for i, cmd in enumerate(run["cmds"]):
                if i not in keep:
                    del cmd["opts"]["timeout"]
            # (the others only stop if it fails; in a block, only at its end)
            run.setdefault("actions", []).append(dict(t=self.c([8.0, 30.0]), do=["cancel"]))
        if self.coin(0.15):
            run["wrap"] = ["timeout", self.c([0.5, 1.0, 4.0, 9.0])]

    # -------------------------------------------------------------- command
    def cmd(self, first, last, npipe, pty, fail, depth, mode, sub=None):
        r = self.r
        K = self.K
        prog = f"p{self.rid}_{self.ncmd}"
        self.ncmd += 1
        o = {}
        if self.coin(0.06):
            prog += "-" + "long-name-of-a-program-abcdefgh"[-self.c([13, 17, 18, 19, 30]):]
        if self.coin(0.06):
            o["alt_name"] = self.c(["nick", "a name that is longer than thirty-one characters"])
        cmd = dict(prog=prog, args=[], opts=o)
        enc = "utf-8"
        if self.coin(0.4):
            enc = self.c(["latin-1", "latin-1", "utf-8 replace", "utf-8"])
            o["encoding"] = enc
        text_enc = enc
        if not self.p("auditcb"):
            o["audit"] = False
        if self.coin(0.2):
            cmd["args"].append("x")
        # --- options
        if self.aborted:
            if self.coin(0.4):
                o["cancel_signal"] = self.c([None, "SIGTERM", "SIGINT", "SIGHUP", "SIGUSR1"])
            if self.coin(0.5):
                o["cancel_timeout"] = self.c([0, 0.01, 0.2, 1.0, 5.0])
        if self.p("catch") and depth == 0 and (npipe == 1 or mode in ("aiter", "prompt") and last):
            o["catch_cancel"] = True
        if self.coin(0.1):
            o["session"] = True
        if pty:
            o["pty"] = self.c([True, True, ["cooked", 24, 80, False], ["cooked", 0, 0, True], ["raw", 30, 100],
                               ["cbreak", 0, 0], ["cbreak", 50, 132], ["raw", 0, 100], ["cooked", 24, 0, True],
                               ["raw", 30, 0], ["cbreak", 0, 132], ["cbreak", 50, 0], ["cooked", 0, 80, False]])
            o.pop("session", None)
        # --- where output goes
        captured_in = captured_out = captured_err = False
        if first and sub is None:
            captured_in = self.stdin(cmd, mode, pty, text_enc)
        elif first and sub == "r":
            self.stdin(cmd, "await", False, text_enc)
        if last and sub is None:
            captured_out = self.sink(cmd, "stdout", mode, pty, enc, npipe)
        elif last and sub == "w":
            self.sink(cmd, "stdout", "await", False, enc, npipe)
        captured_err = self.sink(cmd, "stderr", mode if last and sub is None else "await", pty, enc, npipe)
        if cmd.get("stdout", ["default"])[0] == "capture" and cmd.get("stderr", ["default"])[0] == "capture" and mode == "await":
            cmd["stderr"] = ["default"]
        if self.coin(0.3):
            o["error_limit"] = self.c([0, 1, 10, 1024, 1023, 5000])
        if self.coin(0.15):
            cmd["pipe_op"] = True
        if self.coin(0.2):
            cmd["viactx"] = True
        if self.p("fds"):
            if self.coin(0.5):
                o["pass_fds"] = self.c([1, 2])
                o["pass_fds_close"] = self.coin(0.5)
            if self.coin(0.3):
                o["close_fds"] = False
            if self.coin(0.3):
                o["inh_fds"] = 1
        # --- substitutions
        subs = []
        if depth < 2 and self.coin(K["sub"] if depth == 0 else 0.08) and not pty:
            for _ in range(self.c([1, 1, 1, 2, 3])):
                w = self.coin(0.3)
                n = self.c([1, 1, 2])
                members = []
                failm = int(r.random() * n) if (fail and self.coin(0.4)) else None
                for j in range(n):
                    members.append(self.cmd(
                        first=j == 0, last=j == n - 1, npipe=n, pty=False, fail=failm == j,
                        depth=depth + 1, mode="await", sub="w" if w else "r"))
                if failm is not None:
                    fail = False
                cmd["args"].append(dict(sub=members, w=w))
                self.shape(cmd["args"][-1], members)
                subs.append(w)
        # --- program
        if mode == "prompt" and depth == 0:
            ops = self.serve_ops(cmd, first, last, npipe, pty)
        else:
            ops = self.ops(cmd, first, last, pty, enc, subs, sub, mode)
        if pty and isinstance(o["pty"], list) and o["pty"][0] in ("raw", "cbreak"):
            # no end of file on a raw terminal: read what there is
            src = cmd.get("stdin", ["default"])
            if src[0] in ("bytes", "str", "reader"):
                left = src[1][3]
                for op in ops:
                    if op[0] == "in":
                        op[2] = left if op[2] < 0 else min(left, op[2])
                        left -= op[2]
                    elif op[0] == "cat":
                        op[4:] = [left]
                        left = 0
        self.programs[prog] = dict(ops=ops)
        if self.p("exits") and self.coin(0.3):
            o["exit_codes"] = self.c([[0, 1], [1], [0, -15], [0, 1, 2, 3, 255], [7], []])
        if fail:
            self.launch_failure(
                cmd, pty,
                first and mode != "prompt" and sub != "w" and cmd.get("stdin", ["default"])[0] != "capture",
                last and mode != "prompt" and sub != "r" and cmd.get("stdout", ["default"])[0] != "capture")
        return cmd

    def shape(self, where, members):
        "How the commands of a pipeline are put together."
        if len(members) < 2:
            return
        if self.coin(0.3):
            where["right"] = True
        if self.coin(0.4):
            members[0]["onpipe"] = ["stdin"]
        if self.coin(0.4):
            members[-1]["onpipe"] = self.c([["stdout"], ["stderr"], ["stdout", "stderr"]])

    def stdin(self, cmd, mode, pty, enc):
        "Returns True if stdin is captured."
        if mode == "prompt":
            return True
        if pty:
            self_pty = cmd["opts"]["pty"]
            k = self.c(["default", "default", "lines", "devnull", "file"])
            if mode == "ctx" and k == "default":
                return True
            if k == "lines":
                n = min(3000, self.size())
                d = ["gen", "line", self.uid(), n]
                cmd["stdin"] = self.c([["bytes", d], ["str", d, "utf-8"], ["reader", d, self.c([1, 50, 1000]), 0.001]])
            elif k == "devnull":
                cmd["stdin"] = ["devnull"]
            elif k == "file":
                p = self.path("in")
                self.files.append([p, ["gen", "line", self.uid(), self.size()], 0o644, None])
                cmd["stdin"] = ["path", p]
            return False
        if mode == "ctx" and self.coin(0.45):
            cmd["stdin"] = ["capture"]
            return True
        if not self.p("sources"):
            return False
        kind = self.c(["bytes", "bytes", "bytearray", "bytesio", "str", "str", "stringio", "path", "filefd", "fd",
                       "reader", "reader", "devnull", "inherit", "fileobj"])
        d = self.data(enc)
        if kind in ("bytes", "bytearray", "bytesio"):
            cmd["stdin"] = [kind, self.data("latin-1")]
        elif kind in ("str", "stringio"):
            e = enc
            dd = d
            if enc == "utf-8 replace":
                dd = self.data("utf-8", kind="line")
            cmd["stdin"] = [kind, dd, e]
        elif kind in ("path", "filefd", "fileobj"):
            p = self.path("in")
            self.files.append([p, self.data("latin-1"), 0o644, None])
            cmd["stdin"] = [kind, p]
            if kind in ("filefd", "fileobj"):
                cmd["stdin"].append(self.coin(0.5))
        elif kind == "fd":
            cmd["stdin"] = ["fd", self.data("latin-1"), self.coin(0.5), self.c([max(1, self.vol // 2000), 200, 65536]) if self.mincap > 50 else 50,
                            self.c([0, 0, 0.001])]
        elif kind == "reader":
            cmd["stdin"] = ["reader", self.data("latin-1"), self.c([37, 1000, 70000]), self.c([0, 0.001])]
            if self.coin(0.4):
                # lines that are longer than the limit of the reader
                cmd["stdin"][1] = self.data(kind=self.c(["fill", "bin", "crlf"]))
                cmd["stdin"].append(self.c([16, 64, 300, 4096]))
        else:
            cmd["stdin"] = [kind]
        return False

    def sink(self, cmd, which, mode, pty, enc, npipe):
        "Returns True if captured."
        if mode == "prompt" and which == "stdout":
            return True
        if which == "stderr":
            if pty:
                if self.coin(0.2):
                    cmd["stderr"] = self.c([["stdout"], ["devnull"], ["buffer"], ["bytearray", False, None]])
                return False
            if mode == "ctx" and self.coin(0.15) and npipe == 1:
                cmd["stderr"] = ["capture"]
                return True
        else:
            if mode == "ctx" and self.coin(0.6):
                cmd["stdout"] = ["capture"]
                return True
            if mode == "aiter":
                if self.coin(0.12) and not pty and npipe == 1 and cmd.get("stderr") is None:
                    cmd["stdout"] = ["devnull"]
                    cmd["stderr"] = ["stdout"]
                return True
        if which == "stderr" and "stderr" in cmd:
            return False
        if not self.p("sinks"):
            return False
        kinds = ["buffer", "devnull", "inherit", "bytearray", "bytearray", "bytesio", "stringio", "path", "path",
                 "fileobj", "filefd", "fd", "logger", "writer"]
        if which == "stderr":
            kinds += ["stdout"] * 5 + ["default"] * 3
        if pty and which == "stdout":
            kinds = ["buffer", "bytearray", "bytesio", "path", "devnull"]
        kind = self.c(kinds)
        if which == "stderr" and cmd.get("stdout", [""])[0] in ("fd", "filefd", "fileobj") and self.coin(0.4):
            cmd["stderr"] = ["samefd"]      # the same descriptor again
            return False
        if which == "stdout" and kind == "inherit" and mode == "ctx":
            kind = "bytearray"
        if kind in ("bytearray", "bytesio", "stringio"):
            pre = ["lit", "before"] if self.coin(0.4) else None
            if kind == "stringio" and not self.safe and enc == "utf-8":
                pass
            cmd[which] = [kind, self.coin(0.4), pre]
        elif kind == "path":
            p = self.path("out")
            if self.coin(0.5):
                self.files.append([p, ["lit", "old content\n"], 0o644, None])
            cmd[which] = ["path", p, self.coin(0.4)]
        elif kind == "fileobj":
            p = self.path("out")
            self.files.append([p, ["lit", "old content\n"], 0o644, None])
            mode_ = self.c(["wb", "ab", "r+b", "w"])
            cmd[which] = ["fileobj", p, self.coin(0.4) or mode_ == "ab", mode_, self.coin(0.4)]
        elif kind == "filefd":
            cmd[which] = ["filefd", self.path("out"), self.coin(0.5)]
        elif kind == "fd":
            cmd[which] = ["fd", self.coin(0.5), self.c([max(1, self.vol // 2000), 200, 65536]) if self.mincap > 50 else 60, self.c([0, 0, 0.5])]
        elif kind == "writer":
            cmd[which] = ["writer", self.c([100, 65536]), self.c([0, 0, 0.5])]
        elif kind == "stdout" and which == "stderr" and self.coin(0.25) and mode == "await" and "stdout" not in cmd:
            cmd["stdout"] = ["devnull"]
            cmd["stderr"] = ["stdout"]
        else:
            cmd[which] = [kind]
        return False

    # ------------------------------------------------------------- programs
    def chunk(self):
        if self.mincap <= 16:
            return self.c([1, 7, 60, 1000])
        return self.c([50, 500, 4096, 65536])

    def delay_op(self, ops, p=0.15):
        if self.coin(p):
            ops.append(["sleep", self.c([0.0001, 0.001, 0.01, 0.1, 0.5, 1.0, 2.0])])

    def out_specs(self, cmd, which, enc, lines=False):
        kind = cmd.get(which, ["default"])[0]
        sink_enc = enc
        k = None
        if kind == "logger" or lines:
            k = self.c(["line", "utf8"]) if self.safe and enc.startswith("utf-8") else "line"
        if kind == "stringio" and not self.safe and enc == "utf-8":
            k = "line"
        return self.data(enc, kind=k)

    def ops(self, cmd, first, last, pty, enc, subs, sub, mode):
        r = self.r
        ops = []
        o = cmd["opts"]
        fd0 = cmd.get("stdin", ["default"])[0]
        if pty:
            ops.append(["tty"])
        if self.aborted and self.p("disp"):
            d = self.c(["ignore", "handler", "handler", "stop", "dstate", "ignore"])
            if d == "stop" and not self.hangable:
                d = "ignore"
            sig = o.get("cancel_signal", "SIGTERM") or "SIGTERM"
            if self.coin(0.1):
                sig = "SIGTERM"
            if d == "ignore":
                ops.append(["trap", sig, "ignore"])
            elif d == "handler":
                h = []
                if self.coin(0.6):
                    h.append(["sleep", self.c([0.001, 0.1, 0.5, 1.5, 4.0])])
                if self.coin(0.4):
                    h.append(["out", 1, ["gen", "line", self.uid(), min(self.size(), 200)], self.chunk()])
                if self.coin(0.8):
                    h.append(["exit", self.c([0, 0, 3, 143])])
                ops.append(["trap", sig, h])
            elif d == "stop":
                ops.append(["killself", "SIGSTOP"])
            else:
                ops.append(["dstate", self.c([0.5, 2.0, 3.5])])
        self.delay_op(ops)
        held = False
        if self.p("fork"):
            g = []
            if self.coin(0.5):
                g += [["close", 0], ["close", 1], ["close", 2]]
            elif self.coin(0.5):
                g += [["out", 1, ["gen", "line", self.uid(), 20]]]
            g.append(["sleep", self.c([0.01, 0.5, 2.0])])
            ops.append(["fork", g])
            if self.aborted and self.coin(0.5):
                # the process is gone, but its output is still open when the end comes
                g[:] = [["sleep", self.c([1.0, 4.0, 8.0])]]
                held = True
        hang = self.hangable and self.coin(0.7) and not held
        # substitution arguments
        for i, w in enumerate(subs):
            arg = 1 + [j for j, a in enumerate(cmd["args"]) if not isinstance(a, str)][i]
            if w:
                ops.append(["openw", arg, f"a{arg}"])
                n = ["kout", f"a{arg}", self.data("latin-1"), self.chunk()]
                ops.append(n)
                if self.coin(0.7):
                    ops.append(["kclose", f"a{arg}"])
            else:
                ops.append(["openr", arg, f"a{arg}"])
                if self.coin(0.85):
                    ops.append(["kcat", f"a{arg}", 1, self.chunk()])
                elif self.coin(0.5):
                    ops.append(["kin", f"a{arg}", 1 + int(r.random() * 50)])
                if self.coin(0.3):
                    ops.append(["kclose", f"a{arg}"])
        out = lambda fd: ["out", fd, self.out_specs(cmd, "stdout" if fd == 1 else "stderr", enc, mode == "aiter"), self.chunk()]
        reads = not self.p("noread")
        if pty and fd0 == "default" and mode != "ctx":
            reads = False     # stdin of a pty stays open: nothing to read
        err_first = self.coin(0.5)
        ext_err = self.p("ext_err")
        if reads:
            k = self.c(["cat", "cat", "in_out", "out_in", "mix", "catout"])
            if fd0 == "devnull":
                k = self.c(["in_out", "out_in"])
            latin = enc in ("latin-1", "utf-8 replace")
            if not latin and not self.ascii_in(cmd, first):
                k = self.c(["in_out", "out_in", "mix"])
            if k == "cat":
                ops.append(["cat", 0, 1, self.chunk()])
            elif k == "catout":
                ops.append(out(1))
                ops.append(["cat", 0, 1, self.chunk()])
            elif k == "in_out":
                ops += [["in", 0, -1, self.chunk()], out(1)]
            elif k == "out_in":
                ops += [out(1), ["in", 0, -1, self.chunk()]]
            else:
                ops += [["in", 0, 1 + int(r.random() * 300)], out(1), ["in", 0, -1, self.chunk()]]
        else:
            k = self.r.random()
            if k < 0.3:
                ops.append(["close", 0])
            elif k < 0.6 and not pty:
                ops.append(["in", 0, 1 + int(r.random() * 300)])
            ops.append(out(1))
        if ext_err:
            e = out(2)
            if self.coin(0.4):
                ops.append(["interleave", [[1, self.out_specs(cmd, "stdout", enc, mode == "aiter"), self.chunk()],
                                           [2, e[2], self.chunk()]]])
            elif err_first:
                ops.insert(len(ops) - 1, e)
            else:
                ops.append(e)
        self.delay_op(ops)
        if self.coin(0.1):
            ops += [["close", 1]]
            self.delay_op(ops, 0.5)
        if hang:
            ops.insert(int(r.random() * (len(ops) + 1)), ["sleep", 100000.0])
        self.ending(ops)
        return ops

    def ascii_in(self, cmd, first):
        "Is everything that may arrive at stdin decodable whatever is cut off?"
        return False if first and cmd.get("stdin", ["default"])[0] not in ("default", "devnull", "inherit") else first

    def ending(self, ops):
        if self.p("exits"):
            k = self.r.random()
            if k < 0.65:
                ops.append(["exit", self.c([1, 1, 2, 3, 7, 255, 0])])
            else:
                ops.append(["killself", self.c(["SIGTERM", "SIGKILL", "SIGSEGV", "SIGHUP", "SIGINT", "SIGPIPE"])])

    def launch_failure(self, cmd, pty, own_in, own_out):
        prog = self.programs[cmd["prog"]]
        kinds = ["missing", "noexec", "exec_err", "exec_err", "fault", "fault", "fault"]
        if cmd["opts"].get("audit", True):
            kinds.append("audit_raise")
        if pty:
            kinds += ["ptyfail", "ptyfail"]
        kinds += ["badout", "baderr"]
        k = self.c(kinds)
        if k == "missing":
            prog["missing"] = True
        elif k == "noexec":
            prog["noexec"] = True
        elif k == "exec_err":
            prog["exec_err"] = self.c(["ENOEXEC", "EACCES", "ENOMEM", "E2BIG", "ETXTBSY"])
        elif k == "audit_raise":
            cmd["audit_raise"] = "start"
        elif k == "ptyfail":
            cmd["opts"]["pty"] = ["fail", self.c(["EIO", "EACCES"])]
        elif k in ("badout", "baderr"):
            which = "stdout" if k == "badout" else "stderr"
            j = self.c(["badtype", "eacces", "nodir", "isdir", "badin"])
            if j == "badin" or (which == "stdout" and not own_out):
                if not own_in:
                    prog["missing"] = True
                elif self.coin(0.4):
                    cmd["stdin"] = ["badtype"]
                else:
                    p = self.path("bad")
                    if self.coin(0.5):
                        self.files.append([p, ["lit", ""], 0o644, "EACCES"])
                    cmd["stdin"] = ["path", p]
            elif j == "badtype":
                cmd[which] = ["badtype"]
            elif j == "eacces":
                p = self.path("bad")
                self.files.append([p, ["lit", ""], 0o644, "EACCES"])
                cmd[which] = ["path", p, False]
            elif j == "nodir":
                cmd[which] = ["path", "/sim/nodir/x", False]
            else:
                cmd[which] = ["path", "/sim/d", False]
        else:
            self.pending_fault = True
            cmd["launch_fault"] = True

    # ------------------------------------------------------------ ctx bodies
    def ctx_body(self, run, abort):
        r = self.r
        first, last = run["cmds"][0], run["cmds"][-1]
        pin = first.get("stdin", ["default"])[0] == "capture"
        ppty = bool(first["opts"].get("pty"))
        if ppty and first.get("stdin", ["default"])[0] == "default":
            pin = True
        pout = last.get("stdout", ["default"])[0] == "capture"
        perr = last.get("stderr", ["default"])[0] == "capture"
        body = []
        if ppty:
            # canonical or raw terminal: send lines, then EOF by closing
            if pin and not pout:
                pass
            if pout:
                body.append(["readall", 4096])
            if pin and self.coin(0.5):
                body.insert(0, ["write", ["gen", "line", self.uid(), 30]])
            if pin and not self.hangable:
                # the program must not wait for EOF
                prog = self.programs[first["prog"]]
                prog["ops"] = [op for op in prog["ops"] if op[0] not in ("in", "cat")]
        else:
            enc = first["opts"].get("encoding", "utf-8")
            payload = None
            if pin:
                kind = "line"
                if enc == "latin-1":
                    kind = self.c(["line", "bin"])
                payload = ["gen", kind, self.uid(), self.size()]
            if pout and not perr and self.coin(0.25):
                if pin:
                    if self.mincap < 512:
                        payload[3] = min(payload[3], self.mincap)
                    else:
                        payload[3] = min(payload[3], 256)
                    body += [["write", payload], ["closein"]]
                body.append(["lines", self.c([-1, -1, -1])])
            elif self.coin(0.3) and pout and not pin and not perr:
                body += [["read", self.c([1, 100])], ["readexact", self.c([1, 50, 5000])], ["readline"]][:self.c([1, 2, 3])]
                body.append(["readall", self.c([1, 100, 65536]) if self.mincap > 5 else 65536])
            elif pin or pout or perr:
                body.append(["io", payload, bool(pin), bool(pout), bool(perr)])
        if self.coin(0.2):
            body.insert(int(r.random() * (len(body) + 1)), ["sleep", self.c([0.0001, 0.05, 0.5, 2.0])])
        if abort == "timeout" and self.coin(0.3):
            # goes on after the process has finished (and after its timeout?)
            body.append(["sleep", self.c([0.3, 1.0, 3.0, 6.0])])
        if abort == "body":
            body.insert(int(r.random() * (len(body) + 1)), ["raise"])
        elif self.coin(0.06) and len(run["cmds"]) == 1:
            body.insert(int(r.random() * (len(body) + 1)), [self.c(["signal", "cancelrun"]), "SIGTERM"])
        if len(run["cmds"]) == 1 and self.p("control"):
            for _ in range(self.c([1, 1, 2, 3])):
                body.insert(int(r.random() * (len(body) + 1)),
                            [self.c(["signal", "signal", "cancelrun"]), self.c(["SIGTERM", "SIGUSR1", "SIGHUP", "SIGINT", "SIGKILL", "SIGCONT", "SIGUSR2"])])
            if self.coin(0.3):
                self.programs[first["prog"]]["ops"].insert(0, ["trap", self.c(["SIGUSR1", "SIGHUP", "SIGTERM"]), self.c(["ignore", [], [["sleep", 0.2]], [["exit", 5]]])])
        if self.p("control"):
            run["after"] = [[self.c(["signal", "cancelrun"]), self.c(["SIGTERM", "SIGKILL"])]]
        if abort in ("body", "cancel", "timeout") and len(run["cmds"]) == 1 and self.coin(0.2):
            # a signal of the caller that the program survives, earlier
            sig = self.c(["SIGUSR1", "SIGUSR2", "SIGHUP", "SIGINT"])
            if sig != (first["opts"].get("cancel_signal", "SIGTERM") or "SIGTERM"):
                self.programs[first["prog"]]["ops"].insert(0, ["trap", sig, self.c(["ignore", [], [["sleep", 0.01]]])])
                i = next((i for i, op in enumerate(body) if op[0] == "raise"), len(body))
                i = int(r.random() * (i + 1))
                body[i:i] = [["sleep", self.c([0.01, 0.1])], ["signal", sig], ["sleep", self.c([0.001, 0.1, 1.0])]]
        if len(run["cmds"]) == 1 and self.p("helpers"):
            for _ in range(self.c([1, 1, 2, 3])):
                how = self.c(["ok", "ok", "raise", "raise", "raise", "exit", "swallow", "long"])
                body.insert(int(r.random() * (len(body) + 1)),
                            ["task", how, self.c([20.0, 60.0]) if how == "long" else self.c([0, 0.0001, 0.01, 0.1, 0.5, 2.0]),
                             self.c([0, 0, 0, 0.0001, 0.1])])
        run["body"] = body

    # --------------------------------------------------------------- prompts
    def serve_ops(self, cmd, first, last, npipe, pty):
        if not last or (npipe > 1):
            if last:
                return [["cat", 0, 1, self.chunk()]]
            if first:
                return [["serve", self.serve_cfg(pty)]]
            return [["cat", 0, 1, self.chunk()]]
        k = self.r.random()
        ops = []
        if pty:
            ops.append(["tty"])
        if self.aborted and self.p("disp"):
            ops.append(["trap", cmd["opts"].get("cancel_signal", "SIGTERM") or "SIGTERM", "ignore"])
        if k < 0.75 or pty:
            ops.append(["serve", self.serve_cfg(pty)])
        elif k < 0.9:
            ops.append(["cat", 0, 1, self.chunk()])
        else:
            ops += [["out", 1, ["gen", "line", self.uid(), self.size()], self.chunk()], ["in", 0, -1, self.chunk()],
                    ["out", 1, ["gen", "line", self.uid(), self.size()], self.chunk()]]
        self.ending(ops)
        return ops

    PROMPTS = ["$ ", "ok> ", ">>> ", "\u20ac# "]

    def serve_cfg(self, pty):
        self.pr = self.c(self.PROMPTS[:3] if pty else self.PROMPTS)
        self.penc = None if pty else self.c([None, None, None, None, None, "latin-1", "utf-8 replace"])
        if self.penc == "latin-1":
            self.pr = self.c(self.PROMPTS[:3])
        if self.coin(0.25):
            # a long prompt, such as one that shows the working directory
            n = self.c([40, 90, 130, 400])
            self.pr = "[" + "/".join(self.word(7) for _ in range(n // 8)) + "] " + self.pr
        kind = self.c(["bin", "line"]) if self.penc else "line"
        cfg = dict(prompt=self.pr, chunk=self.c([1, 3, 100, 4096]), nread=self.c([1, 5, 4096]))
        if self.coin(0.4):
            cfg["greet"] = ["gen", kind, self.uid(), min(300, self.size())]
        if self.coin(0.5):
            cfg["bye"] = ["gen", kind, self.uid(), min(300, self.size())]
            if self.coin(0.6) and not pty:
                ends = ["done\r", "done\r\n\r", "\r", "done", "a\rb\r"]
                if self.penc or self.coin(0.08):
                    ends += ["\xe2\x82", "done\xf0\x9f\x8e", "\r\xe2"]
                cfg["bye"] = ["lit", self.c(ends)]
        if self.coin(0.3) and not pty:
            cfg["end"] = self.c(["\r\n", "\r", "\n\n"])
        if self.coin(0.2):
            cfg["code"] = self.c([1, 3])
        if self.coin(0.15):
            cfg["nap"] = self.c([0.02, 0.3, 2.0])
        self.cfg = cfg
        return cfg

    def prompt_body(self, run, abort):
        r = self.r
        cmds = run["cmds"]
        prog = self.programs[cmds[0]["prog"]]["ops"]
        serve = any(op[0] == "serve" for op in prog)
        pty = bool(cmds[0]["opts"].get("pty")) or bool(cmds[-1]["opts"].get("pty"))
        for c in cmds:
            # one encoding throughout, so that text is decodable
            c["opts"].pop("encoding", None)
            if serve and self.penc:
                c["opts"]["encoding"] = self.penc
        kw = {}
        dflt_t = self.c([None, None, 3.0, 1.0])
        if dflt_t:
            kw["timeout"] = dflt_t
        if self.coin(0.3):
            kw["normalize_newlines"] = True
        run["promptkw"] = kw
        body = []
        base_t = self.c([1.0, 3.0, 0.2])

        def t(p=0.3):
            # a timeout: always one unless we know that an answer comes
            return self.c([0.0005, 0.05, 0.5, 1.0, 2.0]) if self.coin(p) else (dflt_t or base_t)
        n = self.c([1, 2, 3, 4, 6, 9])
        vol = self.vol
        if serve:
            kw["prompt"] = self.pr
            if self.coin(0.2):
                kw["prompt"] = ["list", [self.pr, "first "]]
            fl = min(vol, 3000) if pty else vol
            # First prompt.
            if self.coin(0.85):
                body.append(["expect", None, t(0.1)])
            for _ in range(n):
                k = r.random()
                if k < 0.3:
                    ckw = {"timeout": t()}
                    if self.coin(0.1):
                        ckw["prompt"] = self.c([self.pr, ["re", re.escape(self.pr)], self.pr + "$"[:0]])
                    if self.coin(0.1):
                        ckw["allow_eof"] = True
                    if self.coin(0.06) and not pty:
                        ckw["end"] = self.c(["\nn\n", "z\n"])
                    if self.coin(0.12) and not ckw.get("end"):
                        if pty:
                            body.append(["send", "p", {"timeout": t(0.1)}])
                        body.append(["command", "h" + self.secret(), dict(ckw, no_echo=True)])
                    else:
                        body.append(["command", "e" + self.word(), ckw])
                elif k < 0.42:
                    body.append(["send", "f%d" % int(r.random() * fl), {"timeout": t(0.1)}])
                    if self.coin(0.8):
                        body.append(["expect", None, t()])
                elif k < 0.55:
                    body.append(["send", "g%s" % self.c(["0.01", "0.5", "1.0"]), {"timeout": t(0.1)}])
                    body.append(["expect", self.c([["list", ["first ", "second"]], "second", "first "]), t()])
                    body.append(["expect", None, t()])
                elif k < 0.62:
                    body.append(["send", "s%s" % self.c(["0.01", "0.5", "1.0", "5.0"]), {"timeout": t(0.1)}])
                    body.append(["expect", ["re", "sl[a-z]+t"], t()])
                    if self.coin(0.7):
                        body.append(["expect", None, t()])
                elif k < 0.70:
                    # large input while the other side is producing output
                    big = min(vol, 1500) if pty else vol
                    body.append(["send", "f%d" % int(r.random() * fl), {"timeout": t(0.05)}])
                    body.append(["send", "e" + self.word(int(r.random() * big)), {"timeout": t(0.05)}])
                    body.append(["expect", None, t(0.05)])
                elif k < 0.76:
                    body.append(["pending"])
                elif k < 0.8:
                    body.append(["sleep", self.c([0.0001, 0.01, 0.6, 2.0])])
                elif k < 0.84 and pty:
                    body.append(self.c([["echo", False], ["echo", True], ["getecho"], ["getecho"]]))
                elif k < 0.88 and pty:
                    if self.coin(0.4):
                        # asked for once before; the terminal echoes again since then
                        body += [["send", "p", {"timeout": t(0.1)}],
                                 ["send", "h" + self.secret(), {"no_echo": True, "timeout": t(0.1)}], ["expect", None, t(0.1)],
                                 ["send", "P", {"timeout": t(0.1)}], ["expect", None, t(0.1)]]
                        if self.coin(0.3):
                            body[-2] = ["echo", True]
                    body += [["send", self.c(["p", "p", "s%s" % self.c([0.3, 2.0, 31.0])]), {"timeout": t(0.1)}],
                             ["send", "p", {"timeout": t(0.1)}],
                             ["send", "h" + self.secret(), {"no_echo": True, "timeout": t(0.1)}], ["expect", None, t()]]
                elif k < 0.88 and self.coin(0.3):
                    body += [["send", "h" + self.secret(), {"no_echo": True, "timeout": t(0.1)}], ["expect", None, t()]]
                elif k < 0.93:
                    body.append(["expect", self.c(["nothing-like-this", ["re", "[0-9]+:[0-9]+:x"]]), self.c([0.01, 0.3, 1.0])])
                elif k < 0.96:
                    body.append(["send", self.c(["q", "x3"]), {"timeout": t(0.1)}])
                else:
                    body.append(["uexpect", None, self.c([0.001, 0.01, 0.5])])
            if self.coin(0.15):
                body.append(["send", "q", {"timeout": t(0.05)}])
            if self.coin(0.2):
                body.append(["expect", "never-there", self.c([0.01, 0.5, 3.0])])
        else:
            for _ in range(min(n, 4)):
                k = r.random()
                w = self.word(self.c([3, 10, 200, int(r.random() * vol)]))
                if k < 0.6:
                    body.append(["send", w, {"timeout": t(0.05)}])
                    if self.coin(0.5):
                        body.append(["expect", "\n", t(0.1)])
                elif k < 0.7:
                    body.append(["pending"])
                elif k < 0.85:
                    body.append(["expect", self.c(["z", "\n"]), t()])
                else:
                    body.append(["sleep", self.c([0.0001, 0.01, 0.6])])
        # How does the session end?
        if abort == "body":
            body.insert(int(r.random() * (len(body) + 1)), ["raise"])
        body.append(["close"])
        if pty and self.pty_raw(cmds):
            # closing a raw terminal hangs it up; quit first
            body[-1] = ["send", "q", {"timeout": 1.0}]
        elif serve and not pty and self.coin(0.1):
            body[-1:] = [["command", self.c(["q", "x3"]), {"timeout": t(0.05), "allow_eof": True}], ["close"]]
        if self.coin(0.35):
            for _ in range(self.c([1, 1, 2])):
                pat = self.c(["\n", "done", "\r", ["re", "[a-z]+"], ["list", ["never", "\n"]], "\ufffd"])
                body.append(["expect", pat, t(0.1)])
        body.append(["readall", self.c([None, None, 5.0, 0.3])])
        if body[-1][1] is not None and not self.aborted:
            body.append(["readall", None])
        run["body"] = body
        # Large volumes in tiny pieces would only be slow.
        total = 0
        for op in body:
            if op[0] in ("send", "command"):
                m = op[1][1:]
                total += int(m) if op[1][:1] == "f" and m.isdigit() else len(m)
        if total > 1500:
            for c in cmds:
                for op in self.programs[c["prog"]]["ops"]:
                    if op[0] == "serve":
                        op[1].update(chunk=4096, nread=4096)
                    elif op[0] == "cat":
                        op[3] = 4096
                    elif op[0] in ("in", "out") and len(op) > 3:
                        op[3] = 4096
        # Other ways to send the same.
        for i in range(len(body) - 1, -1, -1):
            op = body[i]
            if op[0] not in ("send", "command") or op[2].get("no_echo"):
                continue
            if op[0] == "command" and not pty and self.coin(0.07) and "end" not in op[2]:
                op[2]["end"] = "\r\n"
            if not pty and op[1][:1] == "e" and self.coin(0.08):
                op[1] += self.c(["\xe9", "na\xefve"] if serve and self.penc == "latin-1" else ["\xe9", "\u20ac 5", "\U0001f389"])
            if op[0] == "send" and self.coin(0.06):
                op[2]["bytes"] = True
            if op[0] == "send" and self.coin(0.07):
                j = int(r.random() * (len(op[1]) + 1))
                body[i:i + 1] = [["send", op[1][:j], dict(op[2], end=None)], ["send", op[1][j:], op[2]]]
        # Sessions may wait for something that never comes: bound them.
        acts = run.setdefault("actions", [])
        acts.append(dict(t=300.0, do=["cancel"], last=True))

    def pty_raw(self, cmds):
        for c in cmds:
            p = c["opts"].get("pty")
            if isinstance(p, list) and p[0] in ("raw", "cbreak"):
                return True
        return False

    def secret(self):
        return self.word(self.c([3, 12, 12, 30, 45])) + str(self.uid())

    def word(self, n=None):
        if n is None:
            n = self.c([0, 1, 5, 20])
        return "".join(self.c("abcdefghijklmnopqrstuvwxyz0123456789") for _ in range(min(n, 50))) * (1 if n <= 50 else n // 50)


LAUNCH_FAULTS = [("pipe", ["EMFILE", "ENFILE"], 6), ("fork", ["EAGAIN", "ENOMEM"], 2), ("exec", ["ENOMEM", "EACCES"], 2),
                 ("open", ["EMFILE", "EACCES"], 2), ("openpty", ["EMFILE"], 1), ("tcgetattr", ["EIO"], 2),
                 ("ttyname", ["ENODEV"], 1), ("audit", ["EPERM"], 2), ("epoll_register", ["ENOMEM"], 5),
                 ("tcsetattr", ["EIO"], 1), ("thread_start", ["EAGAIN"], 1)]


# Scenarios that are also executed with tracing.
TRACED_LIKE = ["C12", "C12", "C11", "C01", "C03", "C05", "C07", "C09", "C10", "C13", "C17", "C17", "C20", "C26"]


def make_spec(prop, seed):
    if prop == "C15":
        from . import fam_harvest
        return fam_harvest.generate(seed)
    if prop == "C16":
        from . import fam_watcher
        return fam_watcher.generate(seed)
    if prop in ("C23", "C24"):
        from . import fam_values
        return fam_values.generate(seed, prop)
    if prop == "C18":
        from . import fam_reuse
        return fam_reuse.generate(seed)
    if prop == "C21" and seed % 8 == 5:
        # the exceptions of background tasks that are waited for together
        from . import fam_harvest
        spec = fam_harvest.generate(seed)
        spec["prop"] = prop
        return spec
    if prop == "C27":
        r = random.Random(f"trace/{seed}")
        spec = make_spec(r.choice(TRACED_LIKE), seed)
        spec["prop"] = prop
        spec["trace_level"] = r.choice([logging.INFO, logging.INFO, logging.DEBUG])
        return spec
    g = Gen(prop, seed)
    spec = g.spec()
    spec["prop"] = prop
    if prop == "C20" or getattr(g, "pending_fault", False):
        finish_launch(g, spec)
    return spec


def finish_launch(g, spec):
    "Turn the marker of a launch fault into a fault of one system call."
    for run in spec["runs"]:
        marked = [c for c in run["cmds"] if c.pop("launch_fault", None)]
        for c in run["cmds"]:
            for a in c.get("args", ()):
                if isinstance(a, dict):
                    for m in a["sub"]:
                        m.pop("launch_fault", None)
        if marked:
            cand = [f for f in LAUNCH_FAULTS if f[0] not in ("openpty", "ttyname", "tcsetattr", "tcgetattr")
                    or any(c["opts"].get("pty") for c in run["cmds"])]
            name, errs, hi = g.c(cand)
            spec["faults"].append([name, 1 + int(g.r.random() * hi), g.c(errs)])
