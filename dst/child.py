"""Interpreter for the scripts of simulated child programs.

A script is a list of operations; a process runs it as a generator that yields
None (reschedule), a float (sleep) or a callable (blocked until it is true).
"""

import errno
import os
import random
import signal
import termios

from .kernel import ProcExit, SIGPIPE

_payload_cache = {}


def payload(spec):
    """["lit", text] | ["gen", kind, id, n]."""
    if spec[0] == "lit":
        return spec[1].encode("latin-1")
    key = tuple(spec)
    data = _payload_cache.get(key)
    if data is None:
        _, kind, ident, n = spec
        rng = random.Random(f"payload/{kind}/{ident}")
        if kind == "bin":
            data = rng.randbytes(n)
        elif kind == "utf8":
            out = []
            size = 0
            i = 0
            alphabet = "ab é ü € ∑ 漢 字 😀 🎈 z"
            while size < n:
                if rng.random() < 0.12:
                    s = "\n"
                else:
                    s = alphabet[int(rng.random() * len(alphabet))]
                out.append(s)
                size += len(s.encode())
                i += 1
            data = "".join(out).encode()
        elif kind == "line":
            out = []
            size = 0
            i = 0
            while size < n:
                s = f"{ident}:{i}:" + "x" * int(rng.random() * 20) + "\n"
                out.append(s)
                size += len(s)
                i += 1
            data = "".join(out).encode()[:n]
        elif kind == "crlf":
            out = []
            size = 0
            i = 0
            ends = ["\r\n", "\n", "\r", "\r\r\n"]
            while size < n:
                s = f"{ident}:{i}" + ends[int(rng.random() * 4)]
                out.append(s)
                size += len(s)
                i += 1
            data = "".join(out).encode()[:n]
        else:
            data = (f"{ident}." * (n // (len(str(ident)) + 1) + 1)).encode()[:n]
        if len(_payload_cache) > 500:
            _payload_cache.clear()
        _payload_cache[key] = data
    return data


def maybe_delay(k):
    if k.ch.chance("cdelay", k.cfg["child_delay"]):
        return (0.0001, 0.003, 0.05, 0.7)[k.ch.pick("cdelayn", 4)]
    return None


def w_read(k, p, fd, n):
    ofd = p.fds.get(fd)
    if ofd is None:
        raise ProcExit(9 << 8)
    while True:
        try:
            data = k.do_read(ofd, n)
        except OSError:
            data = b""
        if data is not None:
            p.read.setdefault(fd, bytearray()).extend(data)
            if not data:
                p.eof.setdefault(fd, k.now)
            return data
        yield lambda: k.can_read(ofd)


def w_write(k, p, fd, data, on_epipe="die"):
    ofd = p.fds.get(fd)
    if ofd is None:
        raise ProcExit(9 << 8)
    rec = p.written.setdefault(fd, bytearray())
    data = bytes(data)
    while data:
        try:
            n = k.do_write(ofd, data)
        except BrokenPipeError:
            if on_epipe == "stop":
                return False
            if p.disp.get(SIGPIPE) == "ignore":
                raise ProcExit(1 << 8) from None
            k.emit("sigpipe", p.pid)
            k.probe("sigpipe")
            raise ProcExit(SIGPIPE) from None
        except OSError:
            raise ProcExit(1 << 8) from None
        if n is None:
            m = min(len(data), 1 << 30)
            if p.extra.get("wblock") is None:
                p.extra["wblock"] = k.now
            yield lambda: k.can_write(ofd, m)
            continue
        p.extra["wblock"] = None
        rec += data[:n]
        p.wlog.append((k.now, fd, data[:n]))
        data = data[n:]
        if data:
            yield None
    return True


def op_out(k, p, fd, spec, chunk=4096, delay=0.0, epipe="die"):
    data = payload(spec)
    for i in range(0, len(data), chunk):
        ok = yield from w_write(k, p, fd, data[i:i + chunk], epipe)
        if not ok:
            return
        if delay:
            yield float(delay)
        else:
            d = maybe_delay(k)
            yield d


def tty_eof(p, fd):
    "A terminal's end of file comes once; a program that saw it stops reading."
    ofd = p.fds.get(fd)
    return fd in p.eof and ofd is not None and ofd.kind == "pts"


def op_in(k, p, fd, n=-1, chunk=4096):
    "Read n bytes, or until EOF."
    got = 0
    if tty_eof(p, fd):
        return
    while n < 0 or got < n:
        data = yield from w_read(k, p, fd, chunk if n < 0 else min(chunk, n - got))
        if not data:
            break
        got += len(data)
        yield maybe_delay(k)


def op_cat(k, p, infd=0, outfd=1, chunk=4096, limit=-1, epipe="die"):
    got = 0
    if tty_eof(p, infd):
        return
    while limit < 0 or got < limit:
        data = yield from w_read(k, p, infd, chunk if limit < 0 else min(chunk, limit - got))
        if not data:
            break
        got += len(data)
        d = maybe_delay(k)
        if d:
            yield d
        ok = yield from w_write(k, p, outfd, data, epipe)
        if not ok:
            return


def op_sleep(k, p, t):
    yield float(t)


def op_dstate(k, p, t):
    "Uninterruptible sleep (e.g. disk wait)."
    p.dstate = k.now + t
    yield float(t)


def op_close(k, p, fd):
    ofd = p.fds.pop(fd, None)
    if ofd is not None:
        k.unref(ofd)
    yield None


def op_exit(k, p, code=0):
    yield None
    raise ProcExit((code & 0xFF) << 8)


def op_trap(k, p, sig, disp):
    num = int(getattr(signal, sig))
    if disp == "default":
        p.disp.pop(num, None)
    else:
        p.disp[num] = disp
        if disp == "ignore":
            p.pending = [s for s in p.pending if s != num]
    return
    yield


def op_killself(k, p, sig):
    k.send(p, int(getattr(signal, sig)), "self")
    yield None


def op_fork(k, p, ops):
    "Start a grandchild that inherits all descriptors."
    q = k.new_proc(p.name + "+", p.argv, parent=p)
    q.sid = p.sid
    q.ctty = p.ctty
    q.disp = {s: d for s, d in p.disp.items()}
    for fd, ofd in p.fds.items():
        ofd.refs += 1
        q.fds[fd] = ofd
    q.exec_fds = None
    q.gen = run_ops(k, q, ops)
    k.emit("cfork", q.pid)
    yield None


def _path(p, arg):
    a = p.argv[arg]
    if isinstance(a, bytes):
        a = a.decode()
    return a


def _cfd(p):
    # (never reused: what went through each is recorded by number)
    fd = p.extra.get("nextfd", 2000)
    p.extra["nextfd"] = fd + 1
    return fd


def op_openr(k, p, arg, key):
    "Open argv[arg] for reading; remember the descriptor as `key`."
    try:
        ofd = k.open_path(_path(p, arg), os.O_RDONLY, p)
    except OSError:
        raise ProcExit(2 << 8) from None
    fd = _cfd(p)
    ofd.refs += 1
    p.fds[fd] = ofd
    p.extra[key] = fd
    yield None


def op_openw(k, p, arg, key):
    try:
        ofd = k.open_path(_path(p, arg), os.O_WRONLY, p)
    except OSError:
        raise ProcExit(2 << 8) from None
    fd = _cfd(p)
    ofd.refs += 1
    p.fds[fd] = ofd
    p.extra[key] = fd
    yield None


def op_kin(k, p, key, n=-1, chunk=4096):
    fd = p.extra[key]
    yield from op_in(k, p, fd, n, chunk)
    p.extra["in:" + key] = bytes(p.read.get(fd, b""))
    p.extra["eof:" + key] = fd in p.eof


def op_kcat(k, p, key, outfd=1, chunk=4096):
    yield from op_cat(k, p, p.extra[key], outfd, chunk)
    p.extra["in:" + key] = bytes(p.read.get(p.extra[key], b""))
    p.extra["eof:" + key] = p.extra[key] in p.eof


def op_kout(k, p, key, spec, chunk=4096):
    fd = p.extra[key]
    yield from op_out(k, p, fd, spec, chunk)
    p.extra["out:" + key] = bytes(p.written.get(fd, b""))


def op_kclose(k, p, key):
    yield from op_close(k, p, p.extra[key])


def op_catargs(k, p, first=1, outfd=1, chunk=4096):
    for i in range(first, len(p.argv)):
        yield from op_openr(k, p, i, f"a{i}")
        yield from op_kcat(k, p, f"a{i}", outfd, chunk)
        yield from op_kclose(k, p, f"a{i}")


def op_echo(k, p, on):
    "Turn terminal echo on or off, as `stty echo` would."
    ofd = p.fds.get(0)
    if ofd is not None and ofd.kind == "pts":
        a = ofd.obj.attrs
        a[3] = (a[3] | termios.ECHO) if on else (a[3] & ~termios.ECHO)
    yield None


def op_tty(k, p):
    "Record what this process knows about its terminal."
    p.extra["tty"] = [bool(p.fds.get(i) is not None and p.fds[i].kind == "pts") for i in range(3)]
    p.extra["ctty"] = p.ctty.id if p.ctty is not None else None
    p.extra["ttyid"] = [p.fds[i].obj.id if p.extra["tty"][i] else None for i in range(3)]
    p.extra["sid"] = p.sid == p.pid
    o = p.fds.get(0)
    if o is not None and o.kind == "pts":
        p.extra["winsz"] = o.obj.winsz
        p.extra["lflag"] = o.obj.attrs[3]
    yield None


def number(text):
    try:
        return max(0.0, float(text.split(b" ")[0]))
    except ValueError:
        return 0.0


def op_serve(k, p, cfg):
    """A line-oriented interactive server.  Commands (one per line):
    e<text>   answer <text>            f<n>  answer n bytes of filler
    s<t>      sleep t then answer      q     quit        x<n> exit with status n
    """
    prompt = cfg.get("prompt", "$ ").encode("utf-8")
    chunk = cfg.get("chunk", 4096)
    end = cfg.get("end", "\n").encode()
    lines = p.extra.setdefault("lines", [])
    if cfg.get("greet"):
        yield from op_out(k, p, 1, cfg["greet"], chunk)
    yield from op_out(k, p, 1, ["lit", prompt.decode("latin-1")], chunk)
    buf = bytearray()
    nread = cfg.get("nread", 4096)
    while True:
        while b"\n" not in buf:
            data = yield from w_read(k, p, 0, nread)
            if not data:
                if cfg.get("nap"):
                    yield cfg["nap"]
                if cfg.get("bye"):
                    yield from op_out(k, p, 1, cfg["bye"], chunk)
                return cfg.get("code", 0)
            buf += data
            d = maybe_delay(k)
            yield d
        i = buf.index(b"\n")
        line = bytes(buf[:i])
        del buf[:i + 1]
        lines.append(line)
        k.emit("line", p.pid, len(line))
        cmd, rest = line[:1], line[1:]
        if cmd == b"q":
            return 0
        if cmd == b"x":
            return int(number(rest or b"1")) & 255
        if cmd == b"f":
            n = min(int(number(rest)), 10_000_000)
            yield from op_out(k, p, 1, ["gen", "line", n, n], chunk)
        elif cmd == b"s":
            yield min(number(rest), 1000.0)
            yield from op_out(k, p, 1, ["lit", "slept"], chunk)
        elif cmd == b"n":
            continue
        elif cmd == b"h":
            yield from op_out(k, p, 1, ["lit", "ok"], chunk)    # (something secret)
        elif cmd == b"p":
            yield from op_echo(k, p, False)
        elif cmd == b"P":
            yield from op_echo(k, p, True)
        elif cmd == b"g":
            # answer in two pieces with a pause in between
            yield from op_out(k, p, 1, ["lit", "first "], chunk)
            yield min(number(rest), 1000.0)
            yield from op_out(k, p, 1, ["lit", "second"], chunk)
        elif cmd == b"e":
            yield from op_out(k, p, 1, ["lit", rest.decode("latin-1")], chunk)
        yield from op_out(k, p, 1, ["lit", (end + prompt).decode("latin-1")], chunk)


def op_reuse(k, p, cfg):
    "One of many runs of the same program: tells who it is, then copies its input."
    delays = cfg.get("delays") or [0]
    codes = cfg.get("codes") or [0]
    p.extra["code"] = codes[p.pid % len(codes)]
    chunk = cfg.get("chunk", 4096)
    yield from w_write(k, p, 2, b"e%d" % p.pid)
    yield maybe_delay(k)
    yield from w_write(k, p, 1, b"#%d\n" % p.pid)
    yield delays[p.pid % len(delays)] or None
    yield from op_cat(k, p, 0, 1, chunk)
    yield delays[(p.pid + 1) % len(delays)] or None
    raise ProcExit(p.extra["code"] << 8)


def op_interleave(k, p, parts):
    "Alternate between several write streams: [[fd, spec, chunk], ...]."
    datas = [[fd, payload(spec), chunk] for fd, spec, chunk in parts]
    while datas:
        for item in list(datas):
            fd, data, chunk = item
            yield from w_write(k, p, fd, data[:chunk])
            item[1] = data[chunk:]
            if not item[1]:
                datas.remove(item)
            yield maybe_delay(k)


OPS = {name[3:]: fn for name, fn in list(globals().items()) if name.startswith("op_")}


def run_ops(k, p, ops):
    for op in ops:
        yield None
        r = yield from OPS[op[0]](k, p, *op[1:])
        if op[0] == "serve" and r is not None:
            return r
    return 0
