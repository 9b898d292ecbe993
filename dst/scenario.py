"""Turns a spec into calls of the public shellous API, runs them in the simulated
world and records what happened.  Judging is done in oracles.py."""

import asyncio
import contextlib
import errno
import io
import logging
import os
import re
import signal
import sys
import termios
from pathlib import Path

import shellous
from shellous import Result, ResultError, sh
from shellous.redirect import Redirect

from . import kernel as kmod
from . import oracles
from . import patch
from .child import payload, op_in, op_out, run_ops
from .kernel import Proc
from .sim import Rec, UserError, UserExit

HARNESS = object()  # parent of processes that belong to the simulated user


class CmdRec:
    "One command of a run, with what its streams are connected to."

    def __init__(self, rec, spec, role):
        self.rec = rec
        self.spec = spec
        self.prog = spec["prog"]
        self.role = role          # ("cmd", i) | ("sub", parent CmdRec, arg index, i, n, writable)
        self.audit = []
        self.src = None           # Source
        self.out = None           # Sink
        self.err = None
        self.procs = []
        self.subs = []            # [(arg index, [CmdRec..], writable)]
        self.pass_fds = []
        self.sub_fds = 0
        self.late = []            # redirections to apply on the pipeline

    @property
    def proc(self):
        return self.procs[0] if self.procs else None


class Source:
    __slots__ = ("kind", "data", "obj", "close")

    def __init__(self, kind, data=b"", obj=None, close=False):
        self.kind = kind
        self.data = data
        self.obj = obj
        self.close = close


class Sink:
    __slots__ = ("kind", "obj", "pre", "append", "extra", "encoding", "same")

    def __init__(self, kind, obj=None, pre=b"", append=False, extra=None):
        self.kind = kind
        self.obj = obj
        self.pre = pre
        self.append = append
        self.extra = extra
        self.encoding = "utf-8"
        self.same = False


class SimLogger(logging.Logger):
    def __init__(self):
        super().__init__("sim")
        self.lines = []

    def error(self, msg, *args, **kwargs):
        self.lines.append(msg)


# ------------------------------------------------------------ user resources
def user_proc(sim, gen_fn, fds):
    "Start a process of the user's, outside the program under test."
    k = sim.k
    k.next_pid += 1
    p = Proc(k, k.next_pid, "user")
    p.parent = HARNESS
    p.user = True
    for fd, ofd in fds.items():
        ofd.refs += 1
        p.fds[fd] = ofd
    k.all_procs.append(p)
    k.run_procs.append(p)
    p.gen = gen_fn(k, p)
    return p


def user_fd(sim, ofd, policy, rec):
    fd = sim.k.alloc_fd(ofd, "user")
    sim.user_fds.append([fd, ofd, policy, rec])
    return fd


def _feed(data, chunk, delay):
    def gen(k, p):
        yield from op_out(k, p, 1, ["lit", data.decode("latin-1")], chunk, delay, "stop")
        return 0
    return gen


def _drain(chunk, delay):
    def gen(k, p):
        if delay:
            yield float(delay)
        yield from op_in(k, p, 0, -1, chunk)
        return 0
    return gen


def make_source(sim, rec, spec):
    k = sim.k
    kind = spec[0]
    if kind == "default":
        return Source(kind)
    if kind in ("bytes", "bytearray", "bytesio"):
        data = payload(spec[1])
        obj = {"bytes": bytes, "bytearray": bytearray, "bytesio": io.BytesIO}[kind](data)
        return Source(kind, data, obj)
    if kind in ("str", "stringio"):
        data = payload(spec[1])
        text = data.decode(spec[2].split()[0])
        return Source(kind, data, text if kind == "str" else io.StringIO(text, newline=""))
    if kind == "path":
        node = k.files.get(spec[1])
        return Source(kind, bytes(node.data) if node else b"", Path(spec[1]))
    if kind == "fileobj":
        close = len(spec) > 2 and spec[2]
        f = patch.sim_open(spec[1], "rb", 0)
        sim.user_fds.append([f.fileno(), k.fds[f.fileno()], "close" if close else "keep", rec])
        k.fd_tag[f.fileno()] = "user"
        sim.keep.append(f)
        return Source(kind, bytes(k.files[spec[1]].data), f, close)
    if kind == "filefd":
        close = spec[2]
        ofd = k.open_path(spec[1], os.O_RDONLY)
        fd = user_fd(sim, ofd, "close" if close else "keep", rec)
        return Source(kind, bytes(k.files[spec[1]].data), fd, close)
    if kind == "fd":
        _, data, close, chunk, delay = spec
        data = payload(data)
        r, w = k.make_pipe()
        user_proc(sim, _feed(data, chunk, delay), {1: w})
        fd = user_fd(sim, r, "close" if close else "keep", rec)
        return Source(kind, data, fd, close)
    if kind == "reader":
        limit = {"limit": spec[4]} if len(spec) > 4 else {}
        return Source(kind, payload(spec[1]), asyncio.StreamReader(**limit))
    if kind == "devnull":
        return Source(kind, b"", sh.DEVNULL)
    if kind == "inherit":
        return Source(kind, b"", sh.INHERIT)
    if kind == "capture":
        return Source(kind, None, sh.CAPTURE)
    if kind == "badtype":
        return Source(kind, None, 1 + 2j)
    raise ValueError(kind)


async def feed_reader(sim, reader, data, chunk, delay):
    for i in range(0, len(data), chunk):
        await asyncio.sleep(delay)
        reader.feed_data(data[i:i + chunk])
    await asyncio.sleep(delay)
    reader.feed_eof()


async def make_sink(sim, rec, spec, encoding):
    k = sim.k
    kind = spec[0]
    if kind == "samefd":
        kind = "stdout"
    if kind in ("default", "buffer", "devnull", "inherit", "capture", "stdout", "badtype"):
        obj = {"default": None, "buffer": sh.BUFFER, "devnull": sh.DEVNULL, "inherit": sh.INHERIT,
               "capture": sh.CAPTURE, "stdout": sh.STDOUT, "badtype": 1 + 2j}[kind]
        return Sink(kind, obj)
    if kind in ("bytearray", "bytesio", "stringio"):
        append = spec[1]
        pre = payload(spec[2]) if spec[2] else b""
        if kind == "bytearray":
            obj = bytearray(pre)
        elif kind == "bytesio":
            obj = io.BytesIO(pre)
        else:
            obj = io.StringIO(pre.decode(encoding.split()[0]), newline="")
        s = Sink(kind, obj, pre, append)
        s.encoding = encoding
        return s
    if kind == "path":
        node = k.files.get(spec[1])
        return Sink(kind, Path(spec[1]), bytes(node.data) if node else b"", spec[2])
    if kind == "fileobj":
        node = k.files.get(spec[1])
        pre = bytes(node.data) if node else b""
        append = spec[2]
        close = len(spec) > 4 and spec[4]
        f = patch.sim_open(spec[1], spec[3])
        if "w" in spec[3]:
            pre = b""
        sim.user_fds.append([f.fileno(), k.fds[f.fileno()], "close" if close else "keep", rec])
        k.fd_tag[f.fileno()] = "user"
        sim.keep.append(f)
        return Sink(kind, f, pre, append, (spec[1], close))
    if kind == "filefd":
        close = spec[2]
        ofd = k.open_path(spec[1], os.O_WRONLY | os.O_CREAT)
        fd = user_fd(sim, ofd, "close" if close else "keep", rec)
        return Sink(kind, fd, b"", False, (spec[1], close))
    if kind == "fd":
        _, close, chunk, delay = spec
        r, w = k.make_pipe()
        p = user_proc(sim, _drain(chunk, delay), {0: r})
        fd = user_fd(sim, w, "close" if close else "keep", rec)
        return Sink(kind, fd, b"", False, (p, close))
    if kind == "logger":
        s = Sink(kind, SimLogger())
        s.encoding = encoding
        return s
    if kind == "writer":
        _, chunk, delay = spec
        r, w = k.make_pipe()
        p = user_proc(sim, _drain(chunk, delay), {0: r})
        fd = k.alloc_fd(w, "user")
        loop = asyncio.get_running_loop()
        reader = asyncio.StreamReader()
        tr, pr = await loop.connect_write_pipe(
            lambda: asyncio.StreamReaderProtocol(reader), patch.SimFileIO(fd, "w"))
        wr = asyncio.StreamWriter(tr, pr, reader, loop)
        sim.writers.append(wr)
        return Sink(kind, wr, b"", False, (p, tr))
    raise ValueError(kind)


# ---------------------------------------------------------- building commands
PTYFAIL = {"EIO": errno.EIO, "EACCES": errno.EACCES}


def make_pty(spec):
    if spec is True:
        return True
    name = spec[0]
    if name == "cooked":
        return shellous.cooked(rows=spec[1], cols=spec[2], echo=spec[3])
    if name == "raw":
        return shellous.raw(rows=spec[1], cols=spec[2])
    if name == "cbreak":
        return shellous.cbreak(rows=spec[1], cols=spec[2])
    if name == "fail":
        def bad(fd):
            raise OSError(PTYFAIL[spec[1]], "pty adapter failed")
        return bad
    raise ValueError(spec)


def audit_fn(sim, cr):
    k = sim.k
    fail_at = cr.spec.get("audit_raise")

    def callback(phase, info):
        runner = info["runner"]
        p = next((q for q in cr.procs if q.pid == runner.pid), None)
        cr.audit.append(dict(
            phase=phase, failure=info["failure"], signal=info["signal"], t=k.now,
            alive=bool(p is not None and p.state == "run"), pid=runner.pid,
            nkill=len([s for s in p.sigs if s[2].startswith("lib")]) if p is not None else 0,
            runner=id(runner), cancelled=runner.cancelled, returncode=runner.returncode,
            pexit=p.exit_time if p is not None else None,
        ))
        if phase == "stop" and runner.returncode is not None:
            try:
                cr.audit[-1]["result"] = runner.result(check=False)
            except Exception as ex:  # judged elsewhere
                cr.audit[-1]["result_exc"] = ex
        sim.keep.append(runner)
        k.emit("audit_" + phase)
        if fail_at == phase:
            raise UserError(f"audit {phase}")
    return callback


async def build(sim, rec, spec, role):
    cr = CmdRec(rec, spec, role)
    rec.cmds.append(cr)
    sim.by_prog.setdefault(cr.prog, cr)
    o = spec.get("opts", {})
    late = spec.get("onpipe", ())
    enc = o.get("encoding", "utf-8")
    argv = []
    for i, a in enumerate(spec.get("args", ())):
        if isinstance(a, str):
            argv.append(a)
            continue
        members = []
        objs = []
        for j, m in enumerate(a["sub"]):
            c, mr = await build(sim, rec, m, ("sub", cr, i + 1, j, len(a["sub"]), a.get("w", False)))
            members.append(mr)
            objs.append(c)
        obj = combine(objs, members, a.get("right"))
        if a.get("w"):
            obj = obj.writable
        cr.subs.append((i + 1, members, bool(a.get("w"))))
        argv.append(obj)
    # configure a command, or a context that the command is then made with
    viactx = bool(spec.get("viactx"))
    if viactx:
        cmd = sh
    else:
        cmd = sh(cr.prog)
        for a in argv:
            cmd = cmd(a)
    kw = {}
    for name in ("timeout", "cancel_timeout", "error_limit", "encoding", "close_fds", "alt_name"):
        if name in o:
            kw[name] = o[name]
    if "cancel_signal" in o:
        s = o["cancel_signal"]
        kw["cancel_signal"] = None if s is None else getattr(signal, s)
    if "exit_codes" in o:
        kw["exit_codes"] = None if o["exit_codes"] is None else set(o["exit_codes"])
    if "pty" in o:
        kw["pty"] = make_pty(o["pty"])
    if o.get("catch_cancel"):
        kw["_catch_cancelled_error"] = True
    if o.get("audit", True):
        kw["audit_callback"] = audit_fn(sim, cr)
    if o.get("session"):
        kw["_start_new_session"] = True
    if o.get("pass_fds"):
        fds = []
        for _ in range(o["pass_fds"]):
            r, w = sim.k.make_pipe()
            policy = "close" if o.get("pass_fds_close") else "keep"
            fds.append(user_fd(sim, r, policy, rec))
            sim.k.fd_inh[user_fd(sim, w, "keep", rec)] = False
        cr.pass_fds = fds
        kw["pass_fds"] = tuple(fds)
        kw["pass_fds_close"] = bool(o.get("pass_fds_close"))
    if o.get("inh_fds"):
        for _ in range(o["inh_fds"]):
            fd = user_fd(sim, sim.k.new_ofd("null", None), "keep", rec)
            sim.k.fd_inh[fd] = True
            sim.inh_fds[fd] = sim.part
    if o.get("env"):
        cmd = cmd.env(**o["env"])
    cmd = cmd.set(**kw)
    src = cr.src = make_source(sim, rec, spec.get("stdin", ["default"]))
    if src.obj is not None:
        if src.kind == "reader":
            chunk, delay = spec["stdin"][2:4]
            rec.feeders.append((src.obj, src.data, chunk, delay))
        if spec.get("pipe_op") and src.kind not in ("capture", "badtype") and not src.close and (not viactx or "stdin" in late):
            fn = lambda c: src.obj | c
        elif src.close:
            fn = lambda c: c.stdin(src.obj, close=True)
        else:
            fn = lambda c: c.stdin(src.obj)
        if "stdin" in late:
            cr.late.append(fn)
        else:
            cmd = fn(cmd)
    for name, fd in (("stdout", 1), ("stderr", 2)):
        sspec = spec.get(name, ["default"])
        if sspec[0] == "samefd" and cr.out.kind in ("fd", "filefd", "fileobj"):
            sink = Sink("stdout", cr.out.obj, append=cr.out.append)
            sink.same = bool(cr.out.extra[1])
        else:
            sink = await make_sink(sim, rec, sspec, enc)
        if fd == 1:
            cr.out = sink
        else:
            cr.err = sink
        if sink.obj is not None:
            close = sink.same or bool(sink.kind in ("fd", "filefd", "fileobj") and sink.extra[1])
            if fd == 1 and spec.get("pipe_op") and sink.kind not in ("badtype",) and not close and (not viactx or name in late):
                fn = lambda c, s=sink: c >> s.obj if s.append else c | s.obj
            else:
                how = {k: True for k, v in (("append", sink.append), ("close", close)) if v}
                fn = lambda c, n=name, s=sink, how=how: getattr(c, n)(s.obj, **how)
            if name in late:
                cr.late.append(fn)
            else:
                cmd = fn(cmd)
    if viactx:
        cmd = cmd(cr.prog, *argv)
    cr.obj = cmd
    return cmd, cr


def combine(objs, recs, right):
    "Make a pipeline, then apply what is to be redirected on the pipeline."
    if right:
        obj = objs[-1]
        for c in objs[-2::-1]:
            obj = c | obj
    else:
        obj = objs[0]
        for c in objs[1:]:
            obj = obj | c
    for cr in recs:
        for fn in cr.late:
            obj = fn(obj)
    return obj


async def build_run(sim, rec):
    run = rec.run
    objs = []
    for i, spec in enumerate(run["cmds"]):
        c, cr = await build(sim, rec, spec, ("cmd", i))
        rec.members.append(cr)
        objs.append(c)
    res = run.get("result")
    if res == "ret":
        # a documented option, applied to the last command
        objs[-1] = objs[-1].set(_return_result=True)
    obj = combine(objs, rec.members, run.get("right"))
    if res == "result":
        obj = obj.result
    rec.obj = obj


# ------------------------------------------------------------------- running
def look(sim, rec, run, where):
    "What the handle of a run says, and what is so at this moment."
    single = len(rec.members) == 1
    p = rec.members[0].procs[-1] if rec.members[0].procs else None
    rec.looks.append(dict(
        where=where, t=sim.k.now, single=single, pid=run.pid, rc=run.returncode if single else None,
        cancelled=run.cancelled if single else None, name=run.name,
        ppid=p and p.pid, code=p and p.exit_code, exited=p is not None and p.exit_time is not None, lost=p and p.lost))


def control(sim, rec, run, op, where):
    "Use the handle of a run to send a signal."
    k = sim.k
    cr = rec.members[0]
    p = cr.procs[-1] if cr.procs else None
    num = int(getattr(signal, op[1]))
    if op[0] != "signal":
        s = cr.spec.get("opts", {}).get("cancel_signal", "SIGTERM")
        num = int(getattr(signal, s or "SIGKILL"))
    n0 = {q: len(q.sigs) for q in k.all_procs}
    c = dict(where=where, op=op, t=k.now, num=num, rc=run.returncode, alive=p is not None and p.exit_time is None, exc=None)
    rec.controls.append(c)
    try:
        if op[0] == "signal":
            run.send_signal(getattr(signal, op[1]))
        else:
            run.cancel()
    except BaseException as ex:
        c["exc"] = ex
        raise
    finally:
        c["alive"] = c["alive"] and p.exit_time is None
        c["got"] = [(q is p, s) for q, n in n0.items() for t, s, who in q.sigs[n:] if who.startswith("lib")]


def user_error(rec):
    return UserExit if rec.run.get("exit") else UserError


async def helper(sim, h):
    "A task of the user's that belongs to the run."
    k = sim.k
    h["started"] = True
    try:
        await asyncio.sleep(h["dur"])
        if h["how"] in ("raise", "exit"):
            h["exc"] = (UserExit if h["how"] == "exit" else UserError)("task")
            h["failed_t"] = k.now
            raise h["exc"]
    except asyncio.CancelledError:
        h["cancel_t"] = k.now
        if h["cleanup"]:
            await asyncio.sleep(h["cleanup"])
        if h["how"] != "swallow":
            raise
    finally:
        h["end"] = k.now


async def do_body(sim, rec, run, ops):
    "Operations inside `async with cmd as run`."
    k = sim.k
    for op in ops:
        name = op[0]
        look(sim, rec, run, name)
        if name == "task":
            h = dict(how=op[1], dur=op[2], cleanup=op[3], t0=k.now, end=None, cancel_t=None, failed_t=None, exc=None, started=False)
            rec.helpers.append(h)
            h["task"] = run.add_task(helper(sim, h), "helper")
            continue
        if name == "sleep":
            await asyncio.sleep(op[1])
        elif name == "raise":
            rec.body_exc = user_error(rec)("body")
            rec.body_raise_t = k.now
            raise rec.body_exc
        elif name == "write":
            data = payload(op[1])
            rec.wrote += data
            run.stdin.write(data)
            try:
                await run.stdin.drain()
            except (BrokenPipeError, ConnectionResetError):
                rec.write_broken = True
        elif name == "closein":
            run.stdin.close()
        elif name == "waitin":
            try:
                await run.stdin.wait_closed()
            except (BrokenPipeError, ConnectionResetError):
                pass
        elif name == "readall":
            while True:
                d = await run.stdout.read(op[1])
                if not d:
                    rec.read_eof = k.now
                    break
                rec.got += d
        elif name == "read":
            rec.got += await run.stdout.read(op[1])
        elif name == "readexact":
            try:
                rec.got += await run.stdout.readexactly(op[1])
            except asyncio.IncompleteReadError as ex:
                rec.got += ex.partial
                rec.read_eof = k.now
        elif name == "readline":
            rec.got += await run.stdout.readline()
        elif name == "readerr":
            while True:
                d = await run.stderr.read(op[1])
                if not d:
                    rec.err_eof = k.now
                    break
                rec.got_err += d
        elif name == "io":
            # everything at once, in separate tasks (as a careful user would)
            await do_io(sim, rec, run, *op[1:])
        elif name == "lines":
            n = 0
            async for line in run:
                rec.lines.append(line)
                n += 1
                if n == op[1]:
                    break
            else:
                rec.iter_done = k.now
        elif name == "signal":
            num = int(getattr(signal, op[1]))
            prog = rec.members[0].spec["prog"]
            csig = rec.members[0].spec.get("opts", {}).get("cancel_signal", "SIGTERM") or "SIGKILL"
            soft = op[1] != csig and any(o[0] == "trap" and o[1] == op[1] for o in sim.spec["programs"].get(prog, {}).get("ops", ()))
            if not soft:
                rec.user_signals.append((k.now, num))
            t0 = k.now
            try:
                control(sim, rec, run, op, "body")
            finally:
                if soft:
                    sim.soft_signals.append((t0, k.now, num))
        elif name == "cancelrun":
            rec.user_signals.append((k.now, "cancel"))
            control(sim, rec, run, op, "body")
        else:
            raise ValueError(name)
    look(sim, rec, run, "end")


async def do_io(sim, rec, run, data, close, out, err):
    async def wr():
        if data is not None:
            d = payload(data)
            rec.wrote += d
            run.stdin.write(d)
            try:
                await run.stdin.drain()
            except (BrokenPipeError, ConnectionResetError):
                rec.write_broken = True
        run.stdin.close()

    async def rd(stream, buf, attr):
        while True:
            d = await stream.read(8192)
            if not d:
                setattr(rec, attr, sim.k.now)
                return
            buf += d
    coros = []
    if close:
        coros.append(wr())
    if out:
        coros.append(rd(run.stdout, rec.got, "read_eof"))
    if err:
        coros.append(rd(run.stderr, rec.got_err, "err_eof"))
    tasks = [asyncio.ensure_future(c) for c in coros]
    sim.harness_tasks.update(tasks)
    try:
        for t in tasks:
            await t
    finally:
        for t in tasks:
            t.cancel()


def real_echo(rec):
    "Does the terminal of this run echo what is sent to it?"
    p = rec.members[0].procs[-1] if rec.members[0].procs else None
    if p is None or p.ctty is None:
        return False
    return bool(p.ctty.attrs[3] & termios.ECHO)


def _pat(spec):
    if spec is None:
        return None
    if isinstance(spec, str):
        return spec
    if spec[0] == "list":
        return list(spec[1])
    if spec[0] == "re":
        return re.compile(spec[1], re.DOTALL)
    raise ValueError(spec)


def cli_encoding(rec):
    return rec.members[-1].spec["opts"].get("encoding", "utf-8").split()[0]


async def do_prompt(sim, rec, cli, ops):
    k = sim.k
    for op in ops:
        name = op[0]
        h = dict(op=op, t0=k.now, pend0=cli.pending, eof0=cli.at_eof)
        rec.history.append(h)
        try:
            if name == "send":
                h["text"] = op[1]
                kw = dict(op[2]) if len(op) > 2 else {}
                text = op[1]
                if kw.pop("bytes", False):
                    text = text.encode(cli_encoding(rec))
                await cli.send(text, **kw)
            elif name == "expect":
                kw = {} if len(op) < 3 or op[2] is None else {"timeout": op[2]}
                out, m = await cli.expect(_pat(op[1]), **kw)
                h["out"] = out
                h["match"] = m[0]
            elif name == "uexpect":
                # the user's own timeout around expect
                try:
                    out, m = await asyncio.wait_for(cli.expect(_pat(op[1])), op[2])
                    h["out"] = out
                    h["match"] = m[0]
                except asyncio.TimeoutError:
                    h["exc"] = "TimeoutError"
                    h["ex"] = None
            elif name == "command":
                kw = dict(op[2]) if len(op) > 2 else {}
                h["text"] = op[1]
                if "prompt" in kw:
                    kw["prompt"] = _pat(kw["prompt"])
                h["out"] = await cli.command(op[1], **kw)
            elif name == "readall":
                kw = {} if len(op) < 2 or op[1] is None else {"timeout": op[1]}
                h["out"] = await cli.read_all(**kw)
            elif name == "pending":
                h["out"] = cli.read_pending()
            elif name == "sleep":
                await asyncio.sleep(op[1])
            elif name == "echo":
                cli.echo = op[1]
                h["real"] = real_echo(rec)
            elif name == "getecho":
                h["out"] = cli.echo
                h["real"] = real_echo(rec)
            elif name == "close":
                cli.close()
            elif name == "raise":
                rec.body_exc = user_error(rec)("body")
                rec.body_raise_t = k.now
                raise rec.body_exc
            else:
                raise ValueError(name)
        except (asyncio.CancelledError, UserError, UserExit):
            h["exc"] = "cancel/raise"
            raise
        except UnicodeDecodeError as ex:
            h["exc"] = type(ex).__name__
            h["ex"] = ex
            raise
        except ValueError:
            raise
        except Exception as ex:
            h["exc"] = type(ex).__name__
            h["ex"] = ex
            h["wblock"] = [(p.pid, p.extra["wblock"]) for cr in rec.members[-1:] for p in cr.procs
                           if p.extra.get("wblock") is not None and p.state == "run"]
        finally:
            h["t1"] = k.now
            h["pend1"] = cli.pending
            h["eof1"] = cli.at_eof


async def run_mode(sim, rec):
    run = rec.run
    obj = rec.obj
    k = sim.k
    mode = run["mode"]
    if mode == "await":
        return await obj
    if mode == "aiter":
        it = run.get("iter", {})
        n = 0
        agen = obj.__aiter__()
        async with contextlib.aclosing(agen):
            async for line in agen:
                rec.lines.append(line)
                n += 1
                if it.get("sleep"):
                    rec.napping = k.now
                    await asyncio.sleep(it["sleep"])
                    rec.napping = None
                if it.get("break") == n:
                    rec.broke = True
                    rec.body_raise_t = k.now
                    break
                if it.get("raise") == n:
                    rec.body_exc = user_error(rec)("loop")
                    rec.body_raise_t = k.now
                    raise rec.body_exc
            else:
                rec.iter_done = True
        return None
    if mode == "ctx":
        async with obj as r:
            rec.run_obj = r
            rec.entered_t = k.now
            try:
                await do_body(sim, rec, r, run.get("body", ()))
            except Exception:
                rec.body_failed = True
                raise
            rec.body_done = True
            rec.body_done_t = k.now
        rec.ctx_exit_t = k.now
        rec.unchecked = r.result(check=False)
        return r.result()
    if mode == "prompt":
        kw = dict(run.get("promptkw", {}))
        if "prompt" in kw:
            kw["prompt"] = _pat(kw["prompt"])
        async with obj.prompt(**kw) as cli:
            rec.cli = cli
            rec.entered_t = k.now
            await do_prompt(sim, rec, cli, run.get("body", ()))
            rec.body_done = True
            rec.body_raise_t = k.now
        rec.ctx_exit_t = k.now
        return cli.result
    raise ValueError(mode)


def arm_actions(sim, rec):
    k = sim.k
    loop = sim.loop

    def insert(fn):
        h = asyncio.Handle(fn, (), loop)
        q = loop._ready
        pos = k.ch.pick("inject", len(q) + 1)
        q.insert(len(q) - pos, h)
        loop._write_to_self()

    def make(act):
        do = act["do"]

        def perform():
            if do[0] == "cancel":
                if not rec.done and rec.task is not None and rec.started:
                    if act.get("last"):
                        rec.last_resort = True
                        rec.unread = any(
                            p.state == "run" and (p.extra.get("wblock") is not None or p.wake_at > k.now)
                            for cr in rec.cmds for p in cr.procs) or any(
                            ofd.kind == "pr" and ofd.obj.buf for ofd in k.fds.values()) or (
                            # the reader holds so much that it stopped reading
                            rec.cli is not None and getattr(getattr(getattr(
                                rec.cli, "_runner", None), "stdout", None), "_paused", False))
                    rec.cancels.append(k.now)
                    rec.cancel_selects.append(k.selects)
                    k.emit("user_cancel", len(rec.cancels))
                    rec.task.cancel()
            elif do[0] == "shutdown":
                # what asyncio.run() does at its end: all tasks at once
                # (except asyncio's own, whose cancellation hangs its create_subprocess_exec)
                tasks = [t for t in asyncio.all_tasks(loop) if t not in sim.harness_tasks and not t.done()
                         and getattr(t.get_coro(), "__name__", "") != "_connect_pipes"]
                for other in sim.recs:
                    if other.started and not other.done and other.task is not None:
                        other.cancels.append(k.now)
                        other.cancel_selects.append(k.selects)
                        other.shutdown = True
                        tasks.append(other.task)
                k.emit("user_shutdown", len(tasks))
                tasks.sort(key=lambda t: t.sim_hash)
                for t in tasks:
                    t.cancel()
            elif do[0] == "kill":
                for p in k.run_procs:
                    if p.name == do[1] and p.state == "run" and not p.user:
                        k.fire("external_" + do[2])
                        k.send(p, int(getattr(signal, do[2])), "external")
                        break

        def fire():
            if do[0] in ("cancel", "shutdown"):
                insert(perform)
            else:
                perform()

        def first():
            after = act.get("after", 0)
            if after:
                k.triggers.setdefault("select", []).append([k.selects + after, fire])
            else:
                fire()
        return first, fire

    for act in rec.run.get("actions", ()):
        first, fire = make(act)
        if "t" in act:
            h = loop.call_later(act["t"], fire)
            rec.handles.append(h)
        elif act["on"] == "select":
            k.triggers.setdefault("select", []).append([k.selects + act["nth"], fire])
        else:
            base = k.counts.get(act["on"], 0)
            k.triggers.setdefault(act["on"], []).append([base + act["nth"], first])


async def run_one(sim, rec):
    k = sim.k
    run = rec.run
    rec.task = asyncio.current_task()
    recovered = 0
    if sim.spec["loop"].get("recovered"):
        # The run is part of the clean-up of a task that was cancelled.
        recovered = 1
        rec.task.cancel()
        try:
            await asyncio.sleep(0)
        except asyncio.CancelledError:
            pass
    rec.start = k.now
    rec.started = True
    rec.sel0 = k.selects
    for reader, data, chunk, delay in rec.feeders:
        t = asyncio.ensure_future(feed_reader(sim, reader, data, chunk, delay))
        sim.harness_tasks.add(t)
        rec.feed_tasks.append(t)
    arm_actions(sim, rec)
    if run.get("selfcancel"):
        rec.cancels.append(k.now)
        rec.cancel_selects.append(k.selects)
        rec.task.cancel()
    try:
        wrap = run.get("wrap")
        if wrap is None:
            value = await run_mode(sim, rec)
        elif wrap[0] == "timeout":
            async with asyncio.timeout(wrap[1]) as tm:
                rec.tm = tm
                value = await run_mode(sim, rec)
        elif wrap[0] == "wait_for":
            value = await asyncio.wait_for(run_mode(sim, rec), wrap[1])
        else:
            raise ValueError(wrap)
        rec.outcome = ("ok", value)
    except asyncio.CancelledError as ex:
        rec.outcome = ("cancelled", ex)
    except (GeneratorExit, KeyboardInterrupt, kmod.SimBug):
        raise
    except (Exception, UserExit) as ex:
        rec.outcome = ("exc", ex)
    rec.end = k.now
    rec.done = True
    rec.cancelling = rec.task.cancelling() - recovered
    for h in rec.helpers:
        h["left"] = not h["task"].done()
    k.emit("run_end", run["id"], rec.outcome[0])
    if rec.run_obj is not None:
        look(sim, rec, rec.run_obj, "after")
        for op in run.get("after", ()):
            if len(rec.members) == 1 and rec.run_obj.returncode is not None:
                control(sim, rec, rec.run_obj, op, "after")
    rec.left = [(p.name, p.state, p.stopped, p.dstate) for p in run_procs(sim, rec) if p.state != "reaped"]
    for t in rec.feed_tasks:
        t.cancel()
    for h in rec.handles:
        h.cancel()
    # A timer that was left behind would cancel us here.
    linger = 0.0
    for cr in rec.cmds:
        t = cr.spec.get("opts", {}).get("timeout")
        if t is not None:
            linger = max(linger, t + 1.0)
    if linger:
        if rec.run.get("selfcancel"):
            # it may have failed before it waited for anything
            with contextlib.suppress(asyncio.CancelledError):
                await asyncio.sleep(0)
        try:
            await asyncio.sleep(linger)
        except asyncio.CancelledError:
            rec.late_cancel = k.now


def run_procs(sim, rec):
    names = {cr.prog for cr in rec.cmds}
    return [p for p in sim.k.all_procs if p.parent is None and not p.user and p.name in names]


def init_rec(rec):
    rec.cmds = []
    rec.members = []
    rec.feeders = []
    rec.feed_tasks = []
    rec.started = False
    rec.handles = []
    rec.last_resort = rec.shutdown = False
    rec.unread = False
    rec.tasks_at_end = None
    rec.cancel_selects = []
    rec.wrote = bytearray()
    rec.got = bytearray()
    rec.got_err = bytearray()
    rec.read_eof = rec.err_eof = rec.write_broken = False
    rec.napping = None
    rec.iter_done = rec.broke = rec.body_done = rec.body_failed = False
    rec.body_raise_t = rec.entered_t = rec.ctx_exit_t = None
    rec.user_signals = []
    rec.looks = []
    rec.controls = []
    rec.helpers = []
    rec.body_done_t = None
    rec.late_cancel = None
    rec.left = []
    rec.cli = None
    rec.tm = None
    rec.obj = None
    rec.unchecked = None
    rec.build_exc = None


async def main(sim):
    family = sim.spec.get("family", "run")
    if family == "run":
        await main_run(sim)
    elif family == "harvest":
        from . import fam_harvest
        await fam_harvest.main(sim)
    elif family == "watcher":
        from . import fam_watcher
        await fam_watcher.main(sim)
    elif family == "reuse":
        from . import fam_reuse
        await fam_reuse.main(sim)
    elif family == "values":
        from . import fam_values
        await fam_values.main(sim)
    else:
        raise ValueError(family)


async def main_run(sim):
    k = sim.k
    spec = sim.spec
    sim.main_task = asyncio.current_task()
    sim.harness_tasks.add(sim.main_task)
    if sim.part == 0:
        sim.by_prog = {}
        sim.writers = []
        sim.inh_fds = {}
        sim.baseline = set(k.fds)
        sim.late_fds = []
        sim.left_tasks = []
        sim.left_timers = []

        def exec_hook(p):
            cr = sim.by_prog.get(p.name)
            if cr is not None:
                cr.procs.append(p)
        k.exec_hook = exec_hook
    last = sim.part + 1 >= spec.get("loops", 1)
    before = set(k.fds)
    recs = []
    for run in spec["runs"]:
        if run.get("loop", 0) != sim.part and not (last and run.get("loop", 0) > sim.part):
            continue
        rec = Rec(run)
        init_rec(rec)
        sim.recs.append(rec)
        recs.append(rec)
        k.tag = "user"
        await build_run(sim, rec)
    k.tag = "lib"
    sim.baseline |= set(k.fds) - before
    k.armed = True
    if not recs:
        pass
    elif spec.get("conc", "gather") == "gather":
        tasks = []
        for rec in recs:
            tasks.append(asyncio.ensure_future(_delayed(sim, rec)))
        sim.harness_tasks.update(tasks)
        await asyncio.wait(tasks)
        for t in tasks:
            if not t.cancelled():   # (cancelled in its very last step)
                t.result()
    else:
        for rec in recs:
            t = asyncio.ensure_future(_delayed(sim, rec))
            sim.harness_tasks.add(t)
            await asyncio.wait([t])
            if not t.cancelled():
                t.result()
    await settle(sim, last)


async def _delayed(sim, rec):
    d = rec.run.get("delay")
    try:
        if d:
            await asyncio.sleep(d)
        await run_one(sim, rec)
    except asyncio.CancelledError:
        rec.late_cancel = sim.k.now


async def settle(sim, last):
    "All runs are over: let callbacks run, then look at what is left."
    k = sim.k
    loop = sim.loop
    for _ in range(25):
        await asyncio.sleep(0)
    k.triggers.clear()
    # Everything except what the child watcher keeps must be closed by now, even
    # if a descendant of some command still runs.
    sim.late_fds += [(fd, k.fds[fd].kind, k.fds[fd].id, k.fd_tag[fd]) for fd in sorted(k.fds)
                     if fd not in sim.baseline and k.fd_tag[fd] in ("lib", "std")
                     and k.fds[fd].kind not in ("epoll", "pidfd")]
    left = [t for t in asyncio.all_tasks() if t not in sim.harness_tasks and not t.done()]
    left.sort(key=lambda t: t.sim_hash)
    sim.left_tasks += left
    sim.left_timers += [h for h in loop._scheduled if not h._cancelled]
    for _ in range(10):
        await asyncio.sleep(0)
    k.armed = False
    for _ in range(5):
        late = [p.dstate for p in k.run_procs if not p.user and p.dstate is not None and p.pending]
        if not late:
            break
        await asyncio.sleep(max(late) - k.now + 0.05)   # unkillable until then
    if last:
        sim.watcher.close()
    for w in sim.writers:
        if not w.transport.is_closing():
            w.transport.abort()
    sim.writers.clear()
    if not last:
        await asyncio.sleep(0)
        return      # another event loop goes on
    for _ in range(5):
        await asyncio.sleep(0)
    sim.lib_fds = [(fd, k.fds[fd].kind, k.fds[fd].id) for fd in sorted(k.fds)
                   if fd not in sim.baseline and k.fd_tag[fd] in ("lib", "watch", "std")]
    sim.lib_tags = {fd: k.fd_tag[fd] for fd, _, _ in sim.lib_fds}
    sim.user_state = []
    for fd, ofd, policy, rec in sim.user_fds:
        closed = k.fds.get(fd) is not ofd
        sim.user_state.append((fd, ofd, policy, closed, rec.started))
    sim.ebadf = list(k.fd_errors)
    # Close the user's own descriptors, and let the user's processes finish.
    for fd, ofd, policy, rec in sim.user_fds:
        if k.fds.get(fd) is ofd:
            k.close(fd)
    sim.keep_files = [f for f in sim.keep if isinstance(f, io.IOBase)]
    k.armed = False
    idle = 0
    while idle < 60:
        procs = [p for p in k.run_procs if p.user]
        if not procs:
            break
        idle += 1
        for p in procs:
            if k.runnable(p):
                k.step_proc(p)
                idle = 0
        if idle:
            k.now += 1.0


def judge_hang(sim):
    if sim.spec.get("family", "run") == "run":
        oracles.judge_hang(sim)
    else:
        sim.family.judge_hang(sim)


def judge_late(sim):
    if sim.spec.get("family", "run") == "run":
        oracles.judge(sim)
    else:
        sim.family.judge(sim)
