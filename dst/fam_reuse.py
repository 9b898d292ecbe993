"""C18: one command or pipeline object, used many times at once.

Several tasks use shared objects in every form, one after the other, at the same
time and inside each other; some of the uses fail, are left early or cancelled.
Every process says who it is, so what a use gets tells whose process it had.
"""

import asyncio
import contextlib
import io
import random
import re


from shellous import ResultError, sh

EPS = 0.02


class UserError(Exception):
    pass


# ------------------------------------------------------------------ generator
FORMS = {
    "lit": ["await", "await", "ret", "aiter", "aiter", "ctx", "prompt", "task"],
    "cap": ["ctxio", "ctxio", "ctxio", "prompt", "task"],
    "pipe": ["await", "await", "aiter", "ctx", "prompt", "task"],
    "pipecap": ["ctxio", "prompt"],
    "sub": ["await", "aiter", "ctx"],
}


def _use(r, objs, depth):
    o = int(r.random() * len(objs))
    if depth and r.random() < 0.6:
        o = 0
    form = r.choice(FORMS[objs[o]["kind"]])
    u = dict(obj=o, form=form, uid=int(r.random() * 1e6))
    if r.random() < 0.2:
        u["copy"] = True        # an equal object instead of the same one
    if r.random() < 0.3:
        u["pre"] = r.choice([0.0, 0.0, 0.001, 0.1])
    if form in ("aiter", "ctx", "ctxio", "prompt") and depth < 3:
        if r.random() < 0.5:
            u["inner"] = [_use(r, objs, depth + 1) for _ in range(r.choice([1, 1, 1, 2, 3]))]
        k = r.random()
        if k < 0.1:
            u["leave"] = "raise"
        elif k < 0.2 and form == "aiter":
            u["leave"] = "break"
        elif k < 0.15:
            u["spawn"] = _use(r, objs, 3)     # runs in a task of its own, beyond the end of the block
        if r.random() < 0.15:
            u["hold"] = r.choice([0.001, 0.1, 0.7])
    if form == "task" and depth < 3 and r.random() < 0.4:
        u["inner"] = [_use(r, objs, depth + 1)]
    return u


def generate(seed):
    r = random.Random(f"reuse/{seed}")
    objs = []
    for i in range(r.choice([1, 1, 1, 2, 3])):
        kind = r.choice(["lit", "lit", "cap", "cap", "pipe", "pipecap", "sub"])
        o = dict(kind=kind, delays=[r.choice([0, 0, 0.001, 0.05, 0.5]) for _ in range(r.choice([1, 2, 3]))])
        if kind in ("lit", "pipe", "sub"):
            o["src"] = [r.choice(["bytes", "str", "bytesio", "stringio", "bytearray"]), r.choice([0, 1, 30, 200, 3000])]
        if kind in ("lit", "cap") and r.random() < 0.5:
            o["codes"] = r.choice([[0, 3], [0, 0, 1], [7, 0, 2], [255, 1, 0]])
        if r.random() < 0.3:
            o["chunk"] = r.choice([1, 17, 200])
        if r.random() < 0.2:
            o["audit"] = False
        objs.append(o)
    tasks = []
    for _ in range(r.choice([1, 2, 2, 3, 4])):
        t = dict(uses=[_use(r, objs, 0) for _ in range(r.choice([1, 1, 2, 3]))])
        if r.random() < 0.5:
            t["delay"] = r.choice([0.0, 0.001, 0.05])
        if r.random() < 0.3:
            t["cancel"] = r.choice([["t", r.choice([0.0, 0.0005, 0.03, 0.3, 1.0])], ["select", 1 + int(r.random() * 60)]])
        tasks.append(t)
    spec = dict(
        seed=int(r.random() * (1 << 40)), family="reuse", prop="C18",
        kcfg=dict(cap=r.choice([16, 256, 4096, 65536]), pcap=4096, reuse_fds=r.random() < 0.8, reuse_pids=False,
                  world=r.choice([0.05, 0.3, 0.6, 0.95]), sys_world=r.choice([0.0, 0.1, 0.5]),
                  short_read=r.choice([0, 0, 0.3]), short_write=r.choice([0, 0, 0.3]), eagain=r.choice([0, 0, 0.2]),
                  child_delay=r.choice([0, 0, 0.1]), stall=r.choice([0, 0, 0, 0.01]), max_steps=400000),
        loop=dict(watcher=r.choice(["pidfd", "pidfd", "thread", "sh-epoll", "sh-thread"]), eager=r.random() < 0.1,
                  hash=1 + int(r.random() * 1e9)),
        objs=objs, tasks=tasks, faults=[], programs={})
    for i, o in enumerate(objs):
        cfg = {key: o[key] for key in ("delays", "codes", "chunk") if key in o}
        spec["programs"][f"r{i}"] = dict(ops=[["reuse", cfg]])
        if o["kind"] in ("pipe", "pipecap"):
            spec["programs"][f"r{i}b"] = dict(ops=[["reuse", dict(cfg)]])
        if o["kind"] == "sub":
            spec["programs"][f"r{i}s"] = dict(ops=[["reuse", dict(cfg)]])
            spec["programs"][f"r{i}"]["ops"] = [["openr", 1, "a"], ["kcat", "a", 1], ["reuse", cfg]]
    if r.random() < 0.25:
        spec["umbrella"] = int(r.random() * len(objs))     # all tasks are started inside a use of this object
        if objs[spec["umbrella"]]["kind"] not in ("cap", "pipecap"):
            del spec["umbrella"]
    if len(tasks) > 1 and r.random() < 0.25:
        # some of them in another call of asyncio.run()
        spec["loops"] = 2
        for t in tasks[1 + int(r.random() * (len(tasks) - 1)):]:
            t["loop"] = 1
    if r.random() < 0.12:
        spec["faults"].append(list(r.choice([("fork", r.choice([1, 2, 3, 5]), "EAGAIN"), ("pipe", r.choice([2, 5, 9, 14]), "EMFILE"),
                                             ("exec", r.choice([1, 2, 4]), "ENOMEM")])))
    return spec


# ------------------------------------------------------------------- scenario
class UseRec:
    def __init__(self, d, n, parent):
        self.d = d
        self.n = n
        self.parent = parent
        self.t0 = self.t1 = None
        self.inside = None      # when the block was entered
        self.left = False       # left early, cancelled, or failed to start
        self.exc = None
        self.text = None        # everything it received
        self.sent = b""
        self.result = None
        self.code_exc = None    # ResultError that was raised
        self.pid = None         # as told by the run object
        self.pids = []          # as told by the processes
        self.collateral = False
        self.alive = []         # [(when, states)] while the block was open

    def name(self):
        s = f"use {self.n} ({self.d['form']} of object {self.d['obj']})"
        return s + (f" inside {self.parent.name()}" if self.parent else "")


class Family:
    def __init__(self, sim):
        self.sim = sim
        self.uses = []
        self.objs = []
        self.late = []      # tasks that outlive the block in which they were started

    def nontrivial(self, sim):
        seen = {}
        for u in self.uses:
            if u.t0 is not None:
                seen[u.d["obj"]] = seen.get(u.d["obj"], 0) + 1
        return any(n > 1 for n in seen.values())

    # -------------------------------------------------------------- objects
    def build(self):
        self.objs = [self.make(i) for i in range(len(self.sim.spec["objs"]))]

    def make(self, i):
        d = self.sim.spec["objs"][i]
        cmd = sh(f"r{i}")
        if d["kind"] == "sub":
            cmd = cmd(sh(f"r{i}s").stdin(b"S\n"))
        if d.get("audit", True):
            cmd = cmd.set(audit_callback=self.audit)
        if "src" in d:
            text = self.input(i)
            kind = d["src"][0]
            obj = {"bytes": lambda: text, "str": text.decode, "bytearray": lambda: bytearray(text),
                   "bytesio": lambda: io.BytesIO(text), "stringio": lambda: io.StringIO(text.decode(), newline="")}[kind]()
            cmd = cmd.stdin(obj)
        else:
            cmd = cmd.stdin(sh.CAPTURE)
        if d["kind"] in ("pipe", "pipecap"):
            cmd = cmd | sh(f"r{i}b")
        if d["kind"] in ("cap", "pipecap"):
            cmd = cmd.stdout(sh.CAPTURE)
        return cmd

    def audit(self, phase, info):
        self.sim.k.emit("audit_" + phase)

    def input(self, i):
        n = self.sim.spec["objs"][i]["src"][1]
        return (f"o{i}:" + "abcdefgh" * (n // 8 + 1))[:n].encode() + (b"\n" if n else b"")

    # ----------------------------------------------------------------- uses
    async def use(self, d, parent=None):
        u = UseRec(d, len(self.uses), parent)
        self.uses.append(u)
        k = self.sim.k
        if d.get("pre") is not None:
            await asyncio.sleep(d["pre"])
        u.t0 = k.now
        try:
            obj = self.make(d["obj"]) if d.get("copy") else self.objs[d["obj"]]
            await getattr(self, "f_" + d["form"])(u, d, obj)
        except UserError as ex:
            u.left = True
            u.exc = ex
            if ex.args != (u.n,):
                raise
        except ResultError as ex:
            u.code_exc = ex
            u.result = ex.result
            if self.sim.spec["objs"][d["obj"]]["kind"] == "sub" and asyncio.current_task().cancelling():
                u.left = True   # (the substituted process failed because the use was cancelled)
        except asyncio.CancelledError as ex:
            u.left = True
            u.exc = ex
            raise
        except Exception as ex:
            if u.left or asyncio.current_task().cancelling():
                # (what fails because of the end of the other members)
                u.collateral = self.sim.spec["objs"][d["obj"]]["kind"] == "sub" and isinstance(
                    ex, (BrokenPipeError, ConnectionResetError))
            u.left = True
            u.exc = ex
        finally:
            u.t1 = k.now
            u.states = [(p.pid, p.state) for p in self.procs(u)]
            k.emit("use_end", u.n, type(u.exc).__name__)
        return u

    def procs(self, u):
        return [p for p in self.sim.k.all_procs if p.pid in u.pids]

    async def inside(self, u, d):
        u.inside = self.sim.k.now
        if d.get("spawn"):
            t = asyncio.ensure_future(self.use(d["spawn"], u))
            self.late.append(t)
            self.sim.harness_tasks.add(t)
        try:
            for x in d.get("inner", ()):
                await self.use(x, u)
            if d.get("hold"):
                await asyncio.sleep(d["hold"])
        except asyncio.CancelledError:
            u.left = True
            raise
        u.alive.append((self.sim.k.now, [(p.pid, p.state, list(p.sigs)) for p in self.procs(u)]))
        if d.get("leave") == "raise":
            u.left = True
            raise UserError(u.n)

    async def f_await(self, u, d, obj):
        u.text = await obj

    async def f_ret(self, u, d, obj):
        u.result = await obj.result

    async def f_task(self, u, d, obj):
        async def go():
            if self.sim.spec["objs"][d["obj"]]["kind"] == "cap":
                await self.f_ctxio(u, d, obj)
            else:
                u.text = await obj
                for x in d.get("inner", ()):
                    await self.use(x, None)
        t = asyncio.ensure_future(go())
        self.sim.harness_tasks.add(t)
        try:
            await t
        except asyncio.CancelledError:
            t.cancel()
            await asyncio.wait([t])
            raise

    async def f_aiter(self, u, d, obj):
        lines = []
        u.text = None
        agen = obj.__aiter__()
        async with contextlib.aclosing(agen):
            async for line in agen:
                lines.append(line)
                u.pids += [int(x) for x in re.findall(r"^#(\d+)\n$", line)]
                if len(lines) == 1:
                    await self.inside(u, d)
                    if d.get("leave") == "break":
                        u.left = True
                        break
        u.text = "".join(lines)

    async def f_ctx(self, u, d, obj):
        async with obj as run:
            u.pid = run.pid
            if u.pid:
                u.pids.append(u.pid)
            await self.inside(u, d)
        u.result = run.result()
        u.text = u.result.output

    async def f_ctxio(self, u, d, obj):
        n = len(self.sim.spec["programs"])  # (only to keep the text short)
        u.sent = f"u{u.n}:{d['uid']}:{n}\n".encode() * 3
        async with obj as run:
            u.pid = run.pid
            if u.pid:
                u.pids.append(u.pid)
            await self.inside(u, d)
            run.stdin.write(u.sent)
            try:
                await run.stdin.drain()
            except (BrokenPipeError, ConnectionResetError):
                pass
            run.stdin.close()
            u.text = (await run.stdout.read(-1)).decode()
            rest = await run.stdout.read(-1)
            assert not rest
        u.result = run.result()

    async def f_prompt(self, u, d, obj):
        u.sent = f"u{u.n}:{d['uid']}\n".encode()
        members = 2 if self.sim.spec["objs"][d["obj"]]["kind"] in ("pipe", "pipecap") else 1
        async with obj.prompt() as cli:
            text = ""
            for _ in range(members):
                before, m = await cli.expect(re.compile(r"#(\d+)\n"))
                text += before + m[0]
                u.pids.append(int(m[1]))
            await self.inside(u, d)
            await cli.send(u.sent.decode(), end="")
            before, m = await cli.expect(u.sent.decode())
            text += before + m[0]
            cli.close()
            text += await cli.read_all()
            u.text = text
        u.result = cli.result
        u.unchecked = True

    # ---------------------------------------------------------------- judge
    def bad(self, kind, text):
        self.sim.violate(("C18",), kind, text[:400])

    def judge_hang(self, sim):
        open_ = [u.name() for u in self.uses if u.t0 is not None and u.t1 is None]
        self.bad("reuse-hang", f"{sim.hang[0]}: {open_[-2:]}")

    def judge(self, sim):
        k = sim.k
        spec = sim.spec
        # Failures of system calls may hit one use each.
        nfault = sum(n for name, n in k.fired.items() if ":" in name)
        claimed = {}
        failed = 0
        by_pid = {p.pid: p for p in k.all_procs}
        for u in self.uses:
            if u.t0 is None or u.t1 is None:
                continue
            who = u.name()
            od = spec["objs"][u.d["obj"]]
            prog = f"r{u.d['obj']}"
            progs = {"pipe": {prog, prog + "b"}, "pipecap": {prog, prog + "b"}, "sub": {prog, prog + "s"}}.get(od["kind"], {prog})
            if u.left and u.exc is not None and not isinstance(u.exc, (UserError, asyncio.CancelledError)):
                if u.collateral:
                    pass
                elif nfault and isinstance(u.exc, OSError) and not u.pids:
                    failed += 1
                elif nfault and len(progs) > 1:
                    failed += 1     # (another member failed to start)
                else:
                    self.bad("reuse-error", f"{who}: {u.exc!r}")
                continue
            if isinstance(u.exc, UserError) and u.exc.args != (u.n,):
                self.bad("reuse-error", f"{who}: got the exception of another use: {u.exc!r}")
            if isinstance(u.exc, asyncio.CancelledError) and not getattr(u, "cancelled", False) and not self.cancelled_above(u):
                self.bad("reuse-error", f"{who}: cancelled, but nobody asked for that")
            # --- what it got
            text = u.text
            res = u.result
            if text is None and res is not None:
                text = res.output
            if not u.left:
                if text is None:
                    self.bad("reuse-error", f"{who}: no output")
                    continue
                found = [int(x) for x in re.findall(r"^#(\d+)$", text, re.M)]
                for x in found:
                    if x not in u.pids:
                        u.pids.append(x)
                body = u.sent or (self.input(u.d["obj"]) if "src" in od else b"")
                if od["kind"] == "sub":
                    want = None
                    if len(found) == 2:
                        want = f"#{found[0]}\nS\n#{found[1]}\n" + body.decode()
                elif len(progs) == 2:
                    want = "".join(f"#{x}\n" for x in found) + body.decode() if len(found) == 2 else None
                else:
                    want = f"#{found[0]}\n" + body.decode() if len(found) == 1 else None
                if want is None or text != want:
                    self.bad("reuse-output", f"{who}: received {text[:80]!r}.. ({len(text)}), expected {(want or '')[:80]!r}..")
                    continue
                ps = [by_pid.get(x) for x in found]
                if any(p is None for p in ps) or {p.name for p in ps} != progs:
                    self.bad("reuse-output", f"{who}: output of {[p and p.name for p in ps]}")
                    continue
                if u.pid is not None and u.pid not in found:
                    self.bad("reuse-output", f"{who}: run.pid is {u.pid}, its processes are {found}")
                for p in ps:
                    if p.spawn_time < u.t0 - 1e-9 or p.spawn_time > u.t1:
                        self.bad("reuse-process", f"{who}: process {p.pid} was started at {p.spawn_time}, not during the use")
                    if any(w.startswith("lib") for _, _, w in p.sigs):
                        self.bad("reuse-signal", f"{who}: its process {p.pid} was signalled: {p.sigs}")
                last = [p for p in ps if p.name == (prog + "b" if len(progs) == 2 and od["kind"] != "sub" else prog)][0]
                if res is not None:
                    code = last.extra.get("code", 0)
                    if res.exit_code != code:
                        self.bad("reuse-result", f"{who}: exit_code {res.exit_code}, its process {last.pid} exited {code}")
                    if res.error_bytes != b"e%d" % last.pid and not (
                            len(progs) == 2 and res.error_bytes in [b"e%d" % p.pid for p in ps]):
                        self.bad("reuse-result", f"{who}: error_bytes {res.error_bytes!r}, its process is {last.pid}")
                    if u.code_exc is not None and code == 0:
                        self.bad("reuse-result", f"{who}: {u.code_exc!r} but exit status 0")
                    if res.cancelled:
                        self.bad("reuse-result", f"{who}: cancelled is set")
                if u.d["form"] in ("await", "task") and u.code_exc is None and last.extra.get("code", 0) != 0 and u.text is not None \
                        and od["kind"] != "cap":
                    self.bad("reuse-result", f"{who}: no error although its process exited {last.extra['code']}")
            # --- its processes are its own
            for x in u.pids:
                if x in claimed and claimed[x] is not u:
                    self.bad("reuse-process", f"{who} and {claimed[x].name()} share process {x}")
                claimed[x] = u
                p = by_pid.get(x)
                if p is not None and p.name not in progs:
                    self.bad("reuse-process", f"{who}: has process {x} of {p.name}")
            # --- while the block was open
            for t, states in u.alive:
                for pid, st, sigs in states:
                    if u.d["form"] in ("ctxio", "prompt") and st != "run":
                        self.bad("reuse-ended", f"{who}: process {pid} was {st} although the block was still open")
                    if any(w.startswith("lib") for _, _, w in sigs):
                        self.bad("reuse-signal", f"{who}: process {pid} was signalled while the block was open: {sigs}")
            # --- afterwards
            for pid, st in u.states:
                if st == "run":
                    self.bad("reuse-left", f"{who}: its process {pid} is still running after the end")
        if failed > nfault:
            self.bad("reuse-error", f"{failed} uses failed to start, {nfault} faults")
        n = sum(1 for u in self.uses if u.t0 is not None and u.left)
        stray = [p.pid for p in k.all_procs if p.pid not in claimed and not p.user]
        per = 2
        if len(stray) > per * n:
            self.bad("reuse-process", f"{len(stray)} processes belong to no use; {n} uses were left early")
        left = [p.pid for p in k.all_procs if p.state == "run" and not p.user and not p.sigs]
        if left:
            self.bad("reuse-left", f"processes {left} are still running at the end")

    def cancelled_above(self, u):
        return u.task_cancelled() if hasattr(u, "task_cancelled") else True


async def main(sim):
    if sim.part == 0:
        sim.family = Family(sim)
    fam = sim.family
    k = sim.k
    loop = sim.loop
    k.exec_hook = None
    me = asyncio.current_task()
    sim.harness_tasks.add(me)
    if sim.part == 0:
        fam.build()
    k.armed = True
    spec = sim.spec

    async def one(t):
        if t.get("delay") is not None:
            await asyncio.sleep(t["delay"])
        for d in t["uses"]:
            await fam.use(d)

    async def everything():
        tasks = []
        handles = []
        for t in spec["tasks"]:
            if t.get("loop", 0) != sim.part:
                continue
            task = asyncio.ensure_future(one(t))
            sim.harness_tasks.add(task)
            tasks.append(task)
            c = t.get("cancel")
            if c:
                if c[0] == "t":
                    handles.append(loop.call_later(c[1], task.cancel))
                else:
                    k.triggers.setdefault("select", []).append([k.selects + c[1], task.cancel])
        if tasks:
            await asyncio.wait(tasks)
        for h in handles:
            h.cancel()
        for t in tasks:
            if not t.cancelled() and t.exception() is not None:
                raise t.exception()

    if "umbrella" in spec and fam.objs and sim.part == 0:
        o = spec["umbrella"]
        u = dict(obj=o, form="ctxio", uid=0)
        fam.umbrella = everything
        inside = fam.inside

        async def inner(rec, d):
            if d is u:
                await everything()
            await inside(rec, d)
        fam.inside = inner
        await fam.use(u)
    else:
        await everything()
    while fam.late:
        t = fam.late.pop()
        await asyncio.wait([t])
        if not t.cancelled() and t.exception() is not None:
            raise t.exception()
    for _ in range(25):
        await asyncio.sleep(0)
    k.triggers.clear()
    if sim.part + 1 < spec.get("loops", 1):
        return
    k.armed = False
    sim.watcher.close()
