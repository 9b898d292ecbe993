"""A simulated operating system kernel.

Everything nondeterministic that the code under test can observe - descriptors,
pipes, ptys, processes, signals, wait status, thread scheduling and time - is
implemented here, driven by a Choices object.  The code under test (shellous,
asyncio, subprocess, threading users) runs for real on top of it.
"""

import _thread
import errno
import os
import signal
import stat
import sys
import termios
from heapq import heappop, heappush

FD_BASE = 1000
PID_BASE = 5_000_000
SIGKILL = 9
SIGSTOP = 19
SIGCONT = 18
SIGPIPE = 13
SIGHUP = 1
SIGCHLD = 17

EPOLLIN = 1
EPOLLOUT = 4
EPOLLERR = 8
EPOLLHUP = 16


class SimDeadlock(BaseException):
    "Nothing can ever happen again, yet the main thread is waiting."


class SimLivelock(BaseException):
    "A run exceeded its step budget."


class SimHang(BaseException):
    "A run burned CPU without making any simulated step."


class SimAbort(BaseException):
    "Raised in secondary threads to unwind them at the end of a run."


class SimBug(Exception):
    "The harness itself did something wrong (never a violation)."


CURRENT = None  # the active kernel, if any


def oserr(num, *args):
    return OSError(num, os.strerror(num), *args)


def alloc_site():
    "Who creates the descriptor: the code under test, its child watcher, or the standard library."
    f = sys._getframe(3)
    while f is not None:
        name = f.f_code.co_filename
        if "/dst/" not in name:
            if name.endswith("/shellous/watcher.py"):
                return "watch"
            return "lib" if "/shellous/" in name or name.endswith("/pty.py") else "std"
        f = f.f_back
    return "std"


def caller():
    "File name of the code that makes the current system call."
    f = sys._getframe(2)
    while f is not None:
        name = f.f_code.co_filename
        if "/dst/" not in name and not name.endswith("/contextlib.py"):
            return name
        f = f.f_back
    return ""


def kill_site():
    "Who sends a signal: the runner, asyncio's transport when closed, or the watcher."
    f = sys._getframe(2)
    while f is not None:
        name = f.f_code.co_filename
        if name.endswith("base_subprocess.py") and f.f_code.co_name in ("close", "__del__"):
            return "lib-close"
        if name.endswith("/shellous/watcher.py"):
            return "lib-watch"
        if name.endswith("/shellous/runner.py"):
            return "lib"
        f = f.f_back
    return "lib"


class Pipe:
    __slots__ = ("id", "buf", "cap", "pbuf", "readers", "writers", "total", "label")

    def __init__(self, id, cap):
        self.id = id
        self.buf = bytearray()
        self.cap = cap
        self.pbuf = min(4096, max(1, cap // 2))
        self.readers = 0
        self.writers = 0
        self.total = 0
        self.label = None


class Node:
    "A simulated file."
    __slots__ = ("path", "data", "mode", "err")

    def __init__(self, path, data=b"", mode=0o644, err=None):
        self.path = path
        self.data = bytearray(data)
        self.mode = mode
        self.err = err  # errno raised by open()


class Pty:
    __slots__ = (
        "id", "path", "attrs", "inq", "line", "outq", "outcap", "incap",
        "masters", "slaves", "ever_slave", "sid", "winsz", "hup", "olog", "mread", "otimes", "shown",
    )

    def __init__(self, id, outcap):
        self.id = id
        self.path = f"/dev/pts/{100000 + id}"
        cc = [b"\x00"] * 32
        cc[termios.VINTR] = b"\x03"
        cc[termios.VQUIT] = b"\x1c"
        cc[termios.VERASE] = b"\x7f"
        cc[termios.VKILL] = b"\x15"
        cc[termios.VEOF] = b"\x04"
        cc[termios.VMIN] = b"\x01"
        cc[termios.VSTART] = b"\x11"
        cc[termios.VSTOP] = b"\x13"
        cc[termios.VSUSP] = b"\x1a"
        iflag = termios.ICRNL | termios.IXON
        oflag = termios.OPOST | termios.ONLCR
        cflag = termios.CS8 | termios.CREAD
        lflag = (termios.ISIG | termios.ICANON | termios.ECHO | termios.ECHOE
                 | termios.ECHOK | termios.ECHOCTL | termios.ECHOKE | termios.IEXTEN)
        self.attrs = [iflag, oflag, cflag, lflag, termios.B38400, termios.B38400, cc]
        self.inq = bytearray()   # raw bytes, or complete canonical lines
        self.line = []           # list of [bytes, is_eof] complete lines (canonical)
        self.outq = bytearray()
        self.olog = bytearray()  # everything the terminal ever produced
        self.shown = bytearray()  # input that was echoed
        self.otimes = []         # (time, total length)
        self.mread = 0           # how much of it was read from the master
        self.outcap = outcap
        self.incap = 4095
        self.masters = 0
        self.slaves = 0
        self.ever_slave = False
        self.sid = None
        self.winsz = (0, 0)
        self.hup = False


class Ofd:
    "Open file description."
    __slots__ = ("id", "kind", "obj", "refs", "nonblock", "append", "pos", "acc", "watch", "tag")

    def __init__(self, id, kind, obj, tag):
        self.id = id
        self.kind = kind
        self.obj = obj
        self.refs = 0
        self.nonblock = False
        self.append = False
        self.pos = 0
        self.acc = "rw"
        self.watch = None
        self.tag = tag


class Epoll:
    __slots__ = ("entries", "closed", "ofd")

    def __init__(self):
        self.entries = {}  # fd -> (ofd, events)
        self.closed = False


class Proc:
    def __init__(self, k, pid, name):
        self.k = k
        self.pid = pid
        self.name = name
        self.argv = ()
        self.env = None
        self.fds = {}          # fd -> Ofd
        self.gen = None
        self.state = "run"     # run | zombie | reaped
        self.wake_at = 0.0
        self.cond = None
        self.stopped = False
        self.pending = []
        self.disp = {}         # sig -> "ignore" | [ops]
        self.status = None     # wait status
        self.exit_time = None
        self.reap_time = None
        self.spawn_time = k.now
        self.dstate = None     # uninterruptible until this time
        self.sid = None
        self.ctty = None
        self.parent = None     # None: child of the process under test
        self.sigs = []         # (time, sig, sender) sent to it
        self.written = {}      # fd -> bytearray, accepted by the kernel
        self.wlog = []         # (time, fd, bytes) in order
        self.read = {}         # fd -> bytearray
        self.eof = {}          # fd -> time at which EOF was read
        self.extra = {}        # what child scripts want to remember
        self.exec_fds = None
        self.launched = False  # exec succeeded
        self.lost = False      # nobody could collect its status
        self.user = False      # started by the harness, not by the code under test
        self.reaped_by = None
        self.std_given = (-1, -1, -1)

    @property
    def alive(self):
        return self.state == "run"

    @property
    def exit_code(self):
        if self.status is None:
            return None
        if self.status & 0x7F:
            return -(self.status & 0x7F)
        return self.status >> 8


class Thread:
    "Scheduling state of a (real, baton-passing) thread."

    def __init__(self, name):
        self.name = name
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.cond = None
        self.deadline = None
        self.done = False
        self.exc = None
        self.steps = 0


DEFAULT_CFG = dict(
    cap=65536,            # pipe capacity
    pcap=4096,            # pty output capacity
    reuse_fds=True,
    reuse_pids=False,
    world=0.5,            # probability of letting a child step before a ready thread goes on
    sys_world=0.1,        # probability of a child step at a system call
    short_read=0.0,
    short_write=0.0,
    eagain=0.0,
    child_delay=0.0,      # probability that a child pauses between operations
    stall=0.0,            # probability that the whole process stalls at select()
    ready_shuffle=True,
    preempt=0.0,          # thread preemption probability at trace points
    thread_switch=0.3,
    max_steps=60000,
    max_time=100000.0,
    sel_cost=1e-6,
)


class Kernel:
    def __init__(self, choices, cfg=None):
        self.ch = choices
        self.cfg = dict(DEFAULT_CFG)
        if cfg:
            self.cfg.update(cfg)
        c = self.cfg
        self.now = 1000.0
        self.t0 = self.now
        self.stalled = 0.0
        self.stall_log = []
        self.steps = 0
        self.max_steps = c["max_steps"]
        self.calm_steps = c["max_steps"] // 8
        self.min_pcap = 1
        self.log = []
        self.counts = {}
        self.armed = False
        self.fault_plan = {}     # sys -> {nth: errno name}
        self.sys_counts = {}
        self.fired = {}          # fault kind -> times
        self.triggers = {}       # event kind -> list of [nth, fn]
        self.next_ofd = 0
        self.next_pipe = 0
        self.next_pid = PID_BASE
        self.free_pids = []
        self.watched_by_thread = False  # (then a pid that Popen.poll() reaped isn't used again)
        self.next_fd = FD_BASE
        self.free_fds = []
        self.fds = {}            # parent fd table: fd -> Ofd
        self.fd_inh = {}
        self.fd_tag = {}         # fd -> tag of who allocated it
        self.fd_errors = []      # (op, fd, errno) EBADF events
        self.close_log = []
        self.files = {}          # path -> Node
        self.dirs = {"/sim", "/sim/bin", "/sim/tmp"}
        self.programs = {}       # name -> dict(ops=..., ...)
        self.procs = {}          # pid -> Proc (not reaped)
        self.all_procs = []
        self.run_procs = []      # not zombie, in spawn order
        self.ptys = {}
        self.pipes = []
        self.cur_proc = None     # set while a preexec_fn runs "in the child"
        self.threads = []
        self.main = Thread("main")
        self.cur = self.main
        self.threads.append(self.main)
        self.abort = None
        self.caps = []
        self.next_cap = 0
        self.selects = 0
        self.probes = {}
        self.reap_hook = None
        self.tag = "lib"
        self.ebadf = []
        self.switches = 0
        self.pre_hash = 0
        self.dead = False
        # standard streams of the process under test
        self.std = []
        for i, (name, kind) in enumerate((("stdin", "null"), ("stdout", "file"), ("stderr", "file"))):
            node = None
            if kind == "file":
                node = self.files[f"/sim/{name}"] = Node(f"/sim/{name}")
            ofd = self.new_ofd(kind, node, "std")
            ofd.append = True
            fd = self.alloc_fd(ofd, "std")
            self.std.append(fd)

    # ------------------------------------------------------------- logging
    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def emit(self, kind, *args):
        self.log.append((kind,) + args)
        n = self.counts.get(kind, 0) + 1
        self.counts[kind] = n
        trig = self.triggers.get(kind)
        if trig:
            for item in list(trig):
                if item[0] == n:
                    trig.remove(item)
                    item[1]()

    def fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def fault(self, sysname):
        "Return an errno to inject for this call of `sysname`, or None."
        if not self.armed:
            return None
        if sysname == "read" and caller().endswith("/subprocess.py"):
            # (an error there makes `subprocess` itself lose the process)
            return None
        if sysname == "close" and ("/shellous/" not in caller() or caller().endswith("/watcher.py")):
            # (an error there makes asyncio's transports hang)
            return None
        if sysname == "epoll_register" and "/shellous/" not in caller():
            # (an error there makes asyncio's transports hang)
            return None
        n = self.sys_counts.get(sysname, 0) + 1
        self.sys_counts[sysname] = n
        plan = self.fault_plan.get(sysname)
        if plan:
            err = plan.pop(n, None)
            if err is not None:
                self.fire(f"{sysname}:{err}")
                self.emit("fault", sysname, err)
                return err
        return None

    # ------------------------------------------------------------ fd table
    def new_ofd(self, kind, obj, tag=None):
        self.next_ofd += 1
        return Ofd(self.next_ofd, kind, obj, tag or self.tag)

    def alloc_fd(self, ofd, tag=None):
        if self.cfg["reuse_fds"] and self.free_fds:
            fd = heappop(self.free_fds)
        else:
            fd = self.next_fd
            self.next_fd += 1
        ofd.refs += 1
        self.fds[fd] = ofd
        self.fd_inh[fd] = False
        tag = tag or self.tag
        if tag == "lib":
            tag = alloc_site()
        self.fd_tag[fd] = tag
        return fd

    def get(self, fd, op="use"):
        p = self.cur_proc
        table = self.fds if p is None else p.fds
        ofd = table.get(fd)
        if ofd is None:
            if p is None:
                self.fd_errors.append((op, fd))
                self.emit("ebadf", op, fd)
            raise oserr(errno.EBADF)
        return ofd

    def close(self, fd):
        p = self.cur_proc
        if p is not None:
            ofd = p.fds.pop(fd, None)
            if ofd is None:
                raise oserr(errno.EBADF)
            self.unref(ofd)
            return
        ofd = self.fds.get(fd)
        if ofd is None:
            self.fd_errors.append(("close", fd))
            self.emit("ebadf", "close", fd)
            raise oserr(errno.EBADF)
        del self.fds[fd]
        del self.fd_inh[fd]
        tag = self.fd_tag.pop(fd)
        heappush(self.free_fds, fd)
        self.close_log.append((fd, tag, ofd.id, ofd.kind))
        self.emit("close", fd)
        self.unref(ofd)
        err = self.fault("close")
        if err:
            raise oserr(getattr(errno, err))

    def unref(self, ofd):
        ofd.refs -= 1
        if ofd.refs > 0:
            return
        kind = ofd.kind
        if kind == "pr":
            ofd.obj.readers -= 1
        elif kind == "pw":
            ofd.obj.writers -= 1
            if ofd.obj.writers == 0:
                self.emit("pipe_eof", ofd.obj.id)
        elif kind == "ptm":
            pty = ofd.obj
            pty.masters -= 1
            if pty.masters == 0:
                pty.hup = True
                self.emit("pty_hup", pty.id)
                if pty.sid is not None:
                    for p in list(self.run_procs):
                        if p.pid == pty.sid:
                            self.send(p, SIGHUP, "kernel")
        elif kind == "pts":
            pty = ofd.obj
            pty.slaves -= 1
            if pty.slaves == 0:
                self.emit("pty_noslave", pty.id)
        elif kind == "epoll":
            ofd.obj.closed = True
        if ofd.watch:
            for ep in ofd.watch:
                for fd, ent in list(ep.entries.items()):
                    if ent[0] is ofd:
                        del ep.entries[fd]
            ofd.watch = None

    def pick_cap(self):
        cap = self.cfg["cap"]
        if isinstance(cap, (list, tuple)):
            v = cap[self.next_cap % len(cap)]
            self.next_cap += 1
            return v
        return cap

    def make_pipe(self):
        "Return (read_ofd, write_ofd)."
        self.next_pipe += 1
        pipe = Pipe(self.next_pipe, self.pick_cap())
        self.pipes.append(pipe)
        r = self.new_ofd("pr", pipe)
        w = self.new_ofd("pw", pipe)
        pipe.readers = pipe.writers = 1
        return r, w

    def sys_pipe(self):
        self.syscall()
        err = self.fault("pipe")
        if err:
            raise oserr(getattr(errno, err))
        r, w = self.make_pipe()
        rfd = self.alloc_fd(r)
        wfd = self.alloc_fd(w)
        self.emit("pipe", rfd, wfd)
        return rfd, wfd

    # ---------------------------------------------------------------- files
    def open_path(self, path, flags, proc=None):
        "Return a new Ofd for `path`."
        acc = flags & os.O_ACCMODE
        if path == "/dev/null":
            ofd = self.new_ofd("null", None)
            return ofd
        if path.startswith("/dev/fd/"):
            table = proc.fds if proc is not None else self.fds
            try:
                num = int(path[8:])
            except ValueError:
                raise oserr(errno.ENOENT, path) from None
            src = table.get(num)
            if src is None:
                raise oserr(errno.ENOENT, path)
            if src.kind in ("pr", "pw"):
                want = "pr" if acc == os.O_RDONLY else "pw"
                ofd = self.new_ofd(want, src.obj)
                if want == "pr":
                    src.obj.readers += 1
                else:
                    src.obj.writers += 1
                return ofd
            ofd = self.new_ofd(src.kind, src.obj)
            if src.kind == "pts":
                src.obj.slaves += 1
            return ofd
        for pty in self.ptys.values():
            if pty.path == path:
                if pty.masters == 0:
                    raise oserr(errno.EIO, path)
                ofd = self.new_ofd("pts", pty)
                pty.slaves += 1
                if proc is not None and proc.sid == proc.pid and proc.ctty is None and pty.sid is None:
                    proc.ctty = pty
                    pty.sid = proc.sid
                return ofd
        node = self.files.get(path)
        if node is not None and node.err is not None:
            raise oserr(getattr(errno, node.err), path)
        if path in self.dirs:
            raise oserr(errno.EISDIR, path)
        if node is None:
            if not flags & os.O_CREAT:
                raise oserr(errno.ENOENT, path)
            if path.rsplit("/", 1)[0] not in self.dirs:
                raise oserr(errno.ENOENT, path)
            node = self.files[path] = Node(path)
        if flags & os.O_TRUNC and acc != os.O_RDONLY:
            del node.data[:]
        ofd = self.new_ofd("file", node)
        ofd.append = bool(flags & os.O_APPEND)
        return ofd

    def sys_open(self, path, flags, mode=0o777):
        self.syscall()
        if self.cur_proc is not None:
            p = self.cur_proc
            ofd = self.open_path(path, flags, p)
            fd = 3
            while fd in p.fds:
                fd += 1
            ofd.refs += 1
            p.fds[fd] = ofd
            return fd
        err = self.fault("open")
        if err:
            raise oserr(getattr(errno, err), path)
        ofd = self.open_path(path, flags)
        fd = self.alloc_fd(ofd)
        self.emit("open", path, fd)
        return fd

    # ------------------------------------------------------------- data path
    def can_read(self, ofd):
        kind = ofd.kind
        if kind == "pr":
            return bool(ofd.obj.buf) or ofd.obj.writers == 0
        if kind == "ptm":
            pty = ofd.obj
            return bool(pty.outq) or (pty.slaves == 0 and pty.ever_slave)
        if kind == "pts":
            pty = ofd.obj
            if pty.line or pty.hup:
                return True
            return bool(pty.inq) and not pty.attrs[3] & termios.ICANON
        return True

    def can_write(self, ofd, n=1):
        kind = ofd.kind
        if kind == "pw":
            pipe = ofd.obj
            if pipe.readers == 0:
                return True
            return pipe.cap - len(pipe.buf) >= min(n, pipe.pbuf)
        if kind == "pts":
            pty = ofd.obj
            return pty.hup or len(pty.outq) < max(pty.outcap, self.min_pcap)
        if kind == "ptm":
            return self.pty_in_room(ofd.obj) > 0
        return True

    def pty_in_room(self, pty):
        used = len(pty.inq) + sum(len(x[0]) for x in pty.line)
        return max(0, pty.incap - used)

    def poll(self, ofd):
        "Return poll event mask."
        kind = ofd.kind
        if kind == "pr":
            m = 0
            if ofd.obj.buf:
                m |= EPOLLIN
            if ofd.obj.writers == 0:
                m |= EPOLLHUP
            return m
        if kind == "pw":
            pipe = ofd.obj
            m = 0
            if pipe.readers == 0:
                m |= EPOLLERR
            if pipe.cap - len(pipe.buf) >= pipe.pbuf:
                m |= EPOLLOUT
            return m
        if kind == "ptm":
            pty = ofd.obj
            m = 0
            if pty.outq:
                m |= EPOLLIN
            if self.pty_in_room(pty) > 0:
                m |= EPOLLOUT
            if pty.slaves == 0 and pty.ever_slave:
                m |= EPOLLHUP
            return m
        if kind == "pts":
            return (EPOLLIN if self.can_read(ofd) else 0) | (EPOLLOUT if self.can_write(ofd) else 0) | (
                EPOLLHUP if ofd.obj.hup else 0)
        if kind == "pidfd":
            return EPOLLIN if ofd.obj.state != "run" else 0
        if kind == "epoll":
            return EPOLLIN if self.epoll_ready(ofd.obj) else 0
        return EPOLLIN | EPOLLOUT

    def do_read(self, ofd, n):
        "Non-blocking read. Returns bytes, or None if it would block."
        kind = ofd.kind
        if kind == "pr":
            pipe = ofd.obj
            if pipe.buf:
                data = bytes(pipe.buf[:n])
                del pipe.buf[:n]
                return data
            return b"" if pipe.writers == 0 else None
        if kind == "file":
            node = ofd.obj
            data = bytes(node.data[ofd.pos:ofd.pos + n])
            ofd.pos += len(data)
            return data
        if kind == "null":
            return b""
        if kind == "ptm":
            pty = ofd.obj
            if pty.outq:
                data = bytes(pty.outq[:n])
                del pty.outq[:n]
                pty.mread += len(data)
                return data
            if pty.slaves == 0 and pty.ever_slave:
                raise oserr(errno.EIO)
            return None
        if kind == "pts":
            pty = ofd.obj
            if pty.attrs[3] & termios.ICANON:
                if pty.line:
                    line = pty.line[0]
                    data = bytes(line[0][:n])
                    line[0] = line[0][n:]
                    if not line[0]:
                        pty.line.pop(0)
                    return data
                if pty.hup:
                    return b""
                return None
            if pty.line:
                # switched to raw with complete lines queued
                data = b"".join(bytes(x[0]) for x in pty.line)
                pty.line.clear()
                pty.inq[:0] = data
            if pty.inq:
                data = bytes(pty.inq[:n])
                del pty.inq[:n]
                return data
            return b"" if pty.hup else None
        if kind == "pw":
            raise oserr(errno.EBADF)
        raise oserr(errno.EINVAL)

    def do_write(self, ofd, data):
        "Non-blocking write: number of bytes accepted, or None if it would block."
        kind = ofd.kind
        if kind == "pw":
            pipe = ofd.obj
            if pipe.readers == 0:
                raise BrokenPipeError(errno.EPIPE, os.strerror(errno.EPIPE))
            free = pipe.cap - len(pipe.buf)
            n = len(data)
            if n <= pipe.pbuf:
                if free < n:
                    return None
            else:
                if free < pipe.pbuf:
                    return None
                n = min(n, free)
            pipe.buf += data[:n]
            pipe.total += n
            return n
        if kind == "file":
            node = ofd.obj
            if ofd.append:
                ofd.pos = len(node.data)
            if ofd.pos > len(node.data):
                node.data.extend(b"\0" * (ofd.pos - len(node.data)))
            node.data[ofd.pos:ofd.pos + len(data)] = data
            ofd.pos += len(data)
            return len(data)
        if kind == "null":
            return len(data)
        if kind == "pts":
            pty = ofd.obj
            if pty.hup:
                raise oserr(errno.EIO)
            if len(pty.outq) >= max(pty.outcap, self.min_pcap):
                return None
            room = max(1, max(pty.outcap, self.min_pcap) - len(pty.outq))
            data = data[:room]
            self.pty_out(pty, data)
            return len(data)
        if kind == "ptm":
            pty = ofd.obj
            room = self.pty_in_room(pty)
            if room <= 0:
                return None
            data = bytes(data[:room])
            self.pty_in(pty, data)
            return len(data)
        raise oserr(errno.EBADF)

    def pty_out(self, pty, data):
        if pty.attrs[1] & termios.OPOST and pty.attrs[1] & termios.ONLCR:
            data = bytes(data).replace(b"\n", b"\r\n")
        pty.outq += data
        pty.olog += data
        pty.otimes.append((self.now, len(pty.olog)))

    def pty_in(self, pty, data):
        if pty.slaves == 0 and pty.ever_slave:
            return      # nobody is there
        iflag, _o, _c, lflag, _i, _s, cc = pty.attrs
        if lflag & termios.ECHO:
            pty.shown += data
        if iflag & termios.ICRNL:
            data = data.replace(b"\r", b"\n")
        if not lflag & termios.ICANON:
            if lflag & termios.ECHO:
                self.pty_out(pty, data)
            pty.inq += data
            return
        eof = cc[termios.VEOF]
        start = 0
        for i in range(len(data)):
            ch = data[i:i + 1]
            if ch == eof:
                pty.inq += data[start:i]
                if lflag & termios.ECHO and i > start:
                    self.pty_out(pty, data[start:i])
                start = i + 1
                pty.line.append([bytes(pty.inq), True])
                del pty.inq[:]
            elif ch == b"\n":
                pty.inq += data[start:i + 1]
                if lflag & termios.ECHO:
                    self.pty_out(pty, data[start:i + 1])
                start = i + 1
                pty.line.append([bytes(pty.inq), False])
                del pty.inq[:]
        if start < len(data):
            pty.inq += data[start:]
            if lflag & termios.ECHO:
                self.pty_out(pty, data[start:])

    # parent-side read/write system calls
    def sys_read(self, fd, n):
        self.syscall()
        ofd = self.get(fd, "read")
        if ofd.kind == "pw":
            raise oserr(errno.EBADF)
        if self.armed and ofd.nonblock and self.ch.chance("eagain", self.cfg["eagain"]):
            self.fire("eagain_read")
            raise BlockingIOError(errno.EAGAIN, "spurious")
        if n > 1 and self.armed and ofd.nonblock and ofd.kind in ("pr", "ptm") and self.ch.chance("short", self.cfg["short_read"]):
            self.fire("short_read")
            n = 1 + self.ch.pick("shortn", min(n, 64) - 1)
        err = self.fault("read") if ofd.kind != "ptm" else None   # (EIO is end of file there)
        if err:
            raise oserr(getattr(errno, err))
        while True:
            data = self.do_read(ofd, n)
            if data is not None:
                self.emit("read", fd, len(data))
                return data
            if ofd.nonblock:
                raise BlockingIOError(errno.EAGAIN, os.strerror(errno.EAGAIN))
            self.block(lambda: self.can_read(ofd), None, "read")

    def sys_write(self, fd, data):
        self.syscall()
        ofd = self.get(fd, "write")
        if ofd.kind == "pr":
            raise oserr(errno.EBADF)
        data = bytes(data)  # (keep no export of the caller's buffer)
        n = len(data)
        if n == 0:
            return 0
        if self.armed and ofd.nonblock and self.ch.chance("eagain", self.cfg["eagain"]):
            self.fire("eagain_write")
            raise BlockingIOError(errno.EAGAIN, "spurious")
        if (self.armed and ofd.nonblock and ofd.kind in ("pw", "ptm")
                and n > (ofd.obj.pbuf if ofd.kind == "pw" else 1)
                and self.ch.chance("short", self.cfg["short_write"])):
            self.fire("short_write")
            lim = min(n - 1, 64)
            data = data[:1 + self.ch.pick("shortn", lim)]
        err = self.fault("write") if ofd.kind != "ptm" else None
        if err:
            raise oserr(getattr(errno, err))
        done = 0
        while True:
            k = self.do_write(ofd, data[done:] if done else data)
            if k is not None:
                done += k
                if ofd.nonblock or done == len(data):
                    self.emit("write", fd, done)
                    return done
                continue
            if ofd.nonblock:
                raise BlockingIOError(errno.EAGAIN, os.strerror(errno.EAGAIN))
            self.block(lambda: self.can_write(ofd), None, "write")

    def sys_fstat(self, fd):
        ofd = self.get(fd, "fstat")
        if ofd.kind in ("pr", "pw"):
            m = stat.S_IFIFO | 0o600
        elif ofd.kind in ("ptm", "pts", "null"):
            m = stat.S_IFCHR | 0o620
        elif ofd.kind == "file":
            m = stat.S_IFREG | 0o644
        else:
            m = 0o600
        return os.stat_result((m, ofd.id, 1, 1, 0, 0, len(ofd.obj.data) if ofd.kind == "file" else 0, 0, 0, 0))

    # ---------------------------------------------------------------- epoll
    def epoll_ready(self, ep):
        out = []
        for fd, (ofd, events) in ep.entries.items():
            m = self.poll(ofd) & (events | EPOLLERR | EPOLLHUP)
            if m:
                out.append((fd, m))
        return out

    # ------------------------------------------------------------ processes
    def alloc_pid(self):
        if self.cfg["reuse_pids"]:
            for i, (pid, thread, selects) in enumerate(self.free_pids):
                # A pid comes back at once ("now") or when the event loop must have
                # learned of its process' end; before that, asyncio confuses the two.
                if self.cfg["reuse_pids"] == "now" or self.selects >= selects + (
                        (10**9 if self.watched_by_thread else 3) if thread is self.main else 3 if thread.done else 40 if "EPoll" in thread.name else 10**9):
                    del self.free_pids[i]
                    return pid
        self.next_pid += 1
        return self.next_pid

    def new_proc(self, name, argv=(), parent=None):
        p = Proc(self, self.alloc_pid(), name)
        p.argv = tuple(argv)
        p.parent = parent
        if parent is None:
            self.procs[p.pid] = p
        self.all_procs.append(p)
        self.run_procs.append(p)
        return p

    def send(self, p, sig, sender):
        p.sigs.append((self.now, sig, sender))
        self.emit("signal", p.pid, sig)
        if p.state != "run":
            return
        if sig == SIGCONT:
            p.stopped = False
            return
        if sig == SIGSTOP:
            p.stopped = True
            self.probe("stopped")
            return
        disp = p.disp.get(sig)
        if disp == "ignore" and sig != SIGKILL:
            return
        if sig == SIGCHLD:
            return
        p.pending.append(sig)

    def sys_kill(self, pid, sig):
        self.syscall()
        p = self.procs.get(pid)
        if p is None:
            raise ProcessLookupError(errno.ESRCH, os.strerror(errno.ESRCH))
        err = self.fault("kill")
        if err:
            raise oserr(getattr(errno, err))
        if sig == 0:
            return
        self.emit("kill", pid, int(sig))
        self.send(p, int(sig), kill_site())

    def sys_waitpid(self, pid, options):
        self.syscall()
        if pid <= 0:
            raise SimBug("waitpid on any child is not simulated")
        p = self.procs.get(pid)
        if p is None:
            self.emit("wait_echild", pid)
            self.mark_lost(pid)
            raise ChildProcessError(errno.ECHILD, os.strerror(errno.ECHILD))
        if p.state == "run":
            if options & os.WNOHANG:
                return (0, 0)
            self.block(lambda: p.state != "run", None, "waitpid")
        if p.state != "zombie":
            p.lost = True
            raise ChildProcessError(errno.ECHILD, os.strerror(errno.ECHILD))
        if self.fault("waitpid"):
            # Somebody else collected the status first.
            self.reap(p, "stolen")
            self.mark_lost(pid)
            raise ChildProcessError(errno.ECHILD, os.strerror(errno.ECHILD))
        self.reap(p, self.cur.name)
        return (pid, p.status)

    def mark_lost(self, pid):
        "The status of the last process with this pid could not be collected."
        for p in reversed(self.all_procs):
            if p.pid == pid:
                p.lost = True
                break

    def reap(self, p, by):
        p.state = "reaped"
        p.reap_time = self.now
        p.reaped_by = by
        self.procs.pop(p.pid, None)
        self.free_pids.append((p.pid, self.cur, self.selects))
        self.emit("reap", p.pid)
        if self.reap_hook:
            self.reap_hook(p)

    def exit_proc(self, p, status):
        p.status = status
        p.exit_time = self.now
        p.state = "zombie"
        p.gen = None
        p.cond = None
        self.run_procs.remove(p)
        for fd in sorted(p.fds):
            self.unref(p.fds[fd])
        p.fds = {}
        if p.ctty is not None and p.ctty.sid == p.pid:
            p.ctty.sid = None
        self.emit("exit", p.pid, status)
        if p.parent is not None:
            p.state = "reaped"

    def runnable(self, p):
        if p.gen is None:
            return False        # between fork() and exec()
        if p.dstate is not None:
            if p.dstate > self.now:
                return False
            p.dstate = None
        if p.pending:
            if SIGKILL in p.pending:
                return True
            if not p.stopped:
                return True
        if p.stopped:
            return False
        if p.wake_at > self.now:
            return False
        return p.cond is None or p.cond()

    def step_proc(self, p):
        self.steps += 1
        if p.pending:
            if SIGKILL in p.pending:
                self.exit_proc(p, SIGKILL)
                return
            if not p.stopped:
                sig = p.pending.pop(0)
                disp = p.disp.get(sig)
                if disp == "ignore":
                    return
                if disp is None:
                    self.exit_proc(p, sig)
                    return
                # run handler, then continue with what was interrupted
                p.gen = self.chain(self.interp(p, disp), p.gen, p.cond, p.wake_at)
                p.cond = None
                p.wake_at = 0.0
                return
        p.cond = None
        try:
            req = p.gen.send(None)
        except StopIteration as stop:
            if p.state == "run":
                self.exit_proc(p, (stop.value or 0) << 8)
            return
        except ProcExit as ex:
            if p.state == "run":
                self.exit_proc(p, ex.status)
            return
        if p.state != "run" or req is None:
            return
        if type(req) is float:
            p.wake_at = self.now + req
        else:
            p.cond = req

    @staticmethod
    def chain(first, rest, cond, wake_at):
        yield from first
        if cond is not None:
            yield cond
        elif wake_at:
            k = CURRENT
            if k is not None and wake_at > k.now:
                yield wake_at - k.now
        return (yield from rest)

    def interp(self, p, ops):
        from . import child
        return child.run_ops(self, p, ops)

    # ----------------------------------------------------------- scheduling
    def syscall(self):
        "Every simulated system call is a scheduling point."
        self.steps += 1
        if self.steps > self.calm_steps:
            self.calm()
        if self.steps > self.max_steps:
            self.overrun()
        if not self.armed:
            return
        c = self.cfg
        if c["sys_world"] and self.run_procs and self.ch.chance("sysw", c["sys_world"]):
            for _ in range(1 + self.ch.pick("sysn", 4)):
                if not self.world_step():
                    break
        if len(self.threads) > 1 and self.ch.chance("thr", c["thread_switch"]):
            self.yield_thread()

    def calm(self):
        "A long run: stop injecting, so that progress must follow within the rest."
        self.calm_steps = 1 << 60
        self.cfg.update(short_read=0, short_write=0, eagain=0, stall=0)
        self.min_pcap = 4096
        self.probe("calmed")

    def overrun(self):
        if self.cur is self.main:
            self.max_steps += 5000
            raise SimLivelock(f"{self.steps} steps, t={self.now - self.t0:.3f}")

    def world_step(self):
        cand = [p for p in self.run_procs if self.runnable(p)]
        if not cand:
            return False
        self.step_proc(cand[self.ch.pick("who", len(cand))])
        return True

    def thread_ready(self, t):
        if t.done:
            return False
        if t.cond is None:
            return True
        if t.deadline is not None and t.deadline <= self.now:
            return True
        return t.cond()

    def yield_thread(self):
        "Possibly let another thread run."
        if self.cur_proc is not None:
            return      # after fork() only the forking thread exists
        me = self.cur
        others = [t for t in self.threads if t is not me and self.thread_ready(t)]
        if not others:
            return
        t = others[self.ch.pick("thrsel", len(others))]
        self.switch(t)

    def switch(self, t):
        me = self.cur
        if t is me:
            return
        self.switches += 1
        self.cur = t
        t.lock.release()
        if not me.done:
            me.lock.acquire()
            if self.abort is not None and me is not self.main:
                raise SimAbort()

    def next_event_time(self):
        best = None
        for t in self.threads:
            if not t.done and t.deadline is not None and (best is None or t.deadline < best):
                best = t.deadline
        for p in self.run_procs:
            w = p.wake_at
            if p.dstate is not None:
                w = max(w, p.dstate) if not p.pending else p.dstate
            elif p.stopped:
                continue
            elif p.cond is not None:
                continue
            if w > self.now and (best is None or w < best):
                best = w
        return best

    def block(self, cond, deadline=None, why="", stalls=False):
        """Block the current thread until cond() or the deadline; returns True if
        cond() holds."""
        me = self.cur
        ch = self.ch
        c = self.cfg
        while True:
            self.steps += 1
            if self.steps > self.max_steps:
                self.overrun()
            ok = cond()
            mine = ok or (deadline is not None and deadline <= self.now)
            me.cond = cond
            me.deadline = deadline
            procs = [p for p in self.run_procs if self.runnable(p)]
            others = [t for t in self.threads if t is not me and self.thread_ready(t)]
            if mine:
                if not procs and not others:
                    break
                w = c["world"]
                if not self.armed:
                    break
                if not ch.chance("go", w):
                    break
            n = len(procs) + len(others)
            if n:
                i = ch.pick("who", n)
                if i < len(procs):
                    self.step_proc(procs[i])
                else:
                    self.switch(others[i - len(procs)])
                    if self.abort is not None:
                        break
                continue
            nxt = self.next_event_time()
            if nxt is None:
                if me is self.main:
                    me.cond = me.deadline = None
                    raise SimDeadlock(why)
                if self.main.done:
                    raise SimAbort()
                self.switch_deadlock()
                continue
            if nxt - self.t0 > c["max_time"]:
                if me is self.main:
                    me.cond = me.deadline = None
                    raise SimDeadlock(f"{why}: nothing but timers until t={nxt - self.t0:.0f}")
            self.now = nxt
        me.cond = None
        me.deadline = None
        return cond()

    def switch_deadlock(self):
        "Hand the deadlock verdict to the main thread."
        main = self.main
        main.cond = lambda: False
        self.switch(main)  # main loops, finds no events, raises

    def start_thread(self, name, fn):
        t = Thread(name)
        self.threads.append(t)
        self.emit("thread", name)

        def boot():
            t.lock.acquire()
            try:
                if self.abort is None:
                    fn()
            except SimAbort:
                pass
            except BaseException as ex:  # recorded, judged by oracles
                t.exc = ex
            finally:
                t.done = True
                t.cond = None
                if t in self.threads:
                    self.threads.remove(t)
                self.emit("thread_end", name)
                # pass the baton on
                if self.abort is not None:
                    self.cur = self.main
                    self.main.lock.release()
                else:
                    self.dispatch()

        _thread.start_new_thread(boot, ())
        return t

    def dispatch(self):
        "The current thread is finished: run something else."
        main = self.main
        ready = [t for t in self.threads if self.thread_ready(t)]
        if ready:
            t = ready[self.ch.pick("thrsel", len(ready))]
        else:
            # Somebody must drive the world: any blocked thread can.
            t = main if not main.done else self.threads[0]
        self.cur = t
        t.lock.release()

    def kill_threads(self):
        "End of a run: unwind all secondary threads."
        self.abort = True
        for t in list(self.threads):
            if t is self.main or t.done:
                continue
            self.cur = t
            t.lock.release()
            self.main.lock.acquire()
        self.abort = None
        self.threads = [self.main]
        self.cur = self.main

    def trace_point(self):
        "Called at traced source lines in multi-threaded checks."
        if self.cur_proc is not None:
            return
        if len(self.threads) <= 1 and not self.run_procs:
            return
        c = self.cfg
        if self.ch.chance("pre", c["preempt"]):
            if self.run_procs and self.ch.chance("prew", 0.5):
                self.world_step()
            self.yield_thread()


class ProcExit(Exception):
    def __init__(self, status):
        self.status = status
