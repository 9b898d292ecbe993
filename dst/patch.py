"""Seams: replaces the functions through which shellous, asyncio and subprocess
reach the operating system by versions that talk to the simulated kernel while a
run is active, and behave as before otherwise."""

import _thread
import asyncio
import builtins
import errno
import fcntl
import io
import os
import selectors
import select
import signal
import struct
import subprocess
import sys
import termios
import threading
import time
import tty
import pty
import shutil

from . import kernel as kmod
from .kernel import FD_BASE, Ofd, Pty, oserr

REAL = {}
_real_open = builtins.open
_real_Thread = threading.Thread
_real_allocate = _thread.allocate_lock


def K():
    return kmod.CURRENT


def active():
    k = kmod.CURRENT
    return k is not None and not k.dead


def is_sim_fd(fd):
    return isinstance(fd, int) and fd >= FD_BASE


def sim_path(path):
    if isinstance(path, int):
        return None
    try:
        p = os.fspath(path)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if p.startswith("/sim/") or p == "/dev/null" or p.startswith("/dev/fd/") or p.startswith("/dev/pts/1000") or p == "/sim":
        return p
    return None


class SimFileIO(io.RawIOBase):
    "Raw file object over a simulated descriptor."

    def __init__(self, fd, mode="rb", closefd=True, name=None):
        super().__init__()
        self._k = K()
        self._fd = fd
        self._mode = mode
        self._closefd = closefd
        self.name = name if name is not None else fd
        self.mode = mode

    def fileno(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        return self._fd

    def readable(self):
        return "r" in self._mode or "+" in self._mode

    def writable(self):
        return any(c in self._mode for c in "wa+x")

    def isatty(self):
        return False

    def seekable(self):
        ofd = self._k.fds.get(self._fd)
        return ofd is not None and ofd.kind == "file"

    def seek(self, pos, whence=0):
        ofd = self._k.get(self._fd, "seek")
        if ofd.kind != "file":
            raise oserr(errno.ESPIPE)
        if whence == 0:
            ofd.pos = pos
        elif whence == 1:
            ofd.pos += pos
        else:
            ofd.pos = len(ofd.obj.data) + pos
        return ofd.pos

    def tell(self):
        return self._k.get(self._fd, "tell").pos

    def truncate(self, size=None):
        ofd = self._k.get(self._fd, "truncate")
        if size is None:
            size = ofd.pos
        data = ofd.obj.data
        if size < len(data):
            del data[size:]
        else:
            data.extend(b"\0" * (size - len(data)))
        return size

    def readinto(self, b):
        try:
            data = self._k.sys_read(self._fd, len(b))
        except BlockingIOError:
            return None
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        try:
            return self._k.sys_write(self._fd, bytes(b))
        except BlockingIOError:
            return None

    def close(self):
        if self.closed:
            return
        try:
            super().close()
        finally:
            if self._closefd and self._k is kmod.CURRENT and not self._k.dead:
                self._k.close(self._fd)

    def __repr__(self):
        return f"<SimFileIO {self._fd}>"


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    k = kmod.CURRENT
    if k is None or k.dead:
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if isinstance(file, int) and not isinstance(file, bool):
        if file < FD_BASE:
            if not k.armed:
                return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        k.get(file, "fdopen")
        raw = SimFileIO(file, mode.replace("b", "").replace("t", ""), closefd)
    else:
        path = sim_path(file)
        if path is None:
            return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        flags = 0
        if "+" in mode:
            flags |= os.O_RDWR
        elif "r" in mode:
            flags |= os.O_RDONLY
        else:
            flags |= os.O_WRONLY
        if "w" in mode:
            flags |= os.O_CREAT | os.O_TRUNC
        if "a" in mode:
            flags |= os.O_CREAT | os.O_APPEND
        if "x" in mode:
            flags |= os.O_CREAT
        fd = k.sys_open(path, flags)
        raw = SimFileIO(fd, mode.replace("b", "").replace("t", ""), True, path)
    if buffering == 0:
        return raw
    bufsize = buffering if buffering > 1 else 8192
    if "+" in mode:
        buf = io.BufferedRandom(raw, bufsize)
    elif "r" in mode:
        buf = io.BufferedReader(raw, bufsize)
    else:
        buf = io.BufferedWriter(raw, bufsize)
    if "b" in mode:
        return buf
    return io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)


def _wrap(name, sim, pred):
    "Patch os.<name>."
    real = getattr(os, name)
    REAL[name] = real

    def wrapper(*args, **kwargs):
        k = kmod.CURRENT
        if k is None or k.dead or not pred(k, args):
            return real(*args, **kwargs)
        return sim(k, *args, **kwargs)

    wrapper.__name__ = name
    wrapper.__qualname__ = name
    setattr(os, name, wrapper)


def _fd_pred(k, args):
    return is_sim_fd(args[0]) or (k.armed and isinstance(args[0], int))


def _armed_pred(k, args):
    return k.armed or k.harness


def _pid_pred(k, args):
    return k.armed or k.harness or args[0] >= kmod.PID_BASE


def _path_pred(k, args):
    a = args[0]
    if isinstance(a, int):
        return is_sim_fd(a)
    return sim_path(a) is not None


def _sim_stat(k, path, *a, **kw):
    import stat as st
    if isinstance(path, int):
        return k.sys_fstat(path)
    p = sim_path(path)
    p = p.rstrip("/") or "/"
    if p in k.dirs:
        return os.stat_result((st.S_IFDIR | 0o755, 1, 1, 1, 0, 0, 0, 0, 0, 0))
    node = k.files.get(p)
    if node is None:
        if p.startswith("/dev/fd/"):
            try:
                if int(p[8:]) in k.fds:
                    return os.stat_result((st.S_IFIFO | 0o600, 1, 1, 1, 0, 0, 0, 0, 0, 0))
            except ValueError:
                pass
        if p == "/dev/null":
            return os.stat_result((st.S_IFCHR | 0o666, 1, 1, 1, 0, 0, 0, 0, 0, 0))
        raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
    return os.stat_result((st.S_IFREG | node.mode, 1, 1, 1, 0, 0, len(node.data), 0, 0, 0))


def _sim_access(k, path, mode, **kw):
    p = sim_path(path)
    if p in k.dirs:
        return True
    node = k.files.get(p)
    if node is None:
        return False
    if mode & os.X_OK and not node.mode & 0o111:
        return False
    return True


def _sim_open_os(k, path, flags, mode=0o777, **kw):
    return k.sys_open(sim_path(path), flags, mode)


def _sim_dup(k, fd):
    ofd = k.get(fd, "dup")
    err = k.fault("dup")
    if err:
        raise oserr(getattr(errno, err))
    return k.alloc_fd(ofd)


def _sim_set_blocking(k, fd, flag):
    k.get(fd, "set_blocking").nonblock = not flag


def _sim_get_blocking(k, fd):
    return not k.get(fd, "get_blocking").nonblock


def _sim_set_inheritable(k, fd, flag):
    k.get(fd, "set_inheritable")
    k.fd_inh[fd] = bool(flag)


def _sim_get_inheritable(k, fd):
    k.get(fd, "get_inheritable")
    return k.fd_inh[fd]


def _sim_pidfd_open(k, pid, flags=0):
    k.syscall()
    err = k.fault("pidfd_open")
    if err:
        raise oserr(getattr(errno, err))
    p = k.procs.get(pid)
    if p is None:
        raise ProcessLookupError(errno.ESRCH, os.strerror(errno.ESRCH))
    ofd = k.new_ofd("pidfd", p)
    fd = k.alloc_fd(ofd)
    k.emit("pidfd", pid, fd)
    return fd


def _sim_openpty(k):
    k.syscall()
    err = k.fault("openpty")
    if err:
        raise oserr(getattr(errno, err))
    n = len(k.ptys) + 1
    pty_ = Pty(n, k.cfg["pcap"])
    k.ptys[n] = pty_
    m = k.new_ofd("ptm", pty_)
    s = k.new_ofd("pts", pty_)
    pty_.masters = 1
    pty_.slaves = 1
    pty_.ever_slave = True
    mfd = k.alloc_fd(m)
    sfd = k.alloc_fd(s)
    k.emit("openpty", mfd, sfd)
    return mfd, sfd


def _get_pty(k, fd):
    if not isinstance(fd, int):
        fd = fd.fileno()
    ofd = k.get(fd, "tty")
    if ofd.kind not in ("ptm", "pts"):
        raise termios.error(errno.ENOTTY, os.strerror(errno.ENOTTY))
    return ofd.obj


def _sim_ttyname(k, fd):
    ofd = k.get(fd, "ttyname")
    err = k.fault("ttyname")
    if err:
        raise oserr(getattr(errno, err))
    if ofd.kind != "pts":
        raise oserr(errno.ENOTTY)
    return ofd.obj.path


def _sim_isatty(k, fd):
    ofd = k.fds.get(fd)
    return ofd is not None and ofd.kind in ("ptm", "pts")


def _sim_lseek(k, fd, pos, how):
    f = SimFileIO(fd, "r+", closefd=False)
    return f.seek(pos, how)


def _tcgetattr(fd):
    k = kmod.CURRENT
    if k is None or k.dead:
        return REAL["tcgetattr"](fd)
    err = k.fault("tcgetattr")
    if err:
        raise termios.error(getattr(errno, err), err)
    try:
        a = _get_pty(k, fd).attrs
    except OSError as ex:
        raise termios.error(ex.errno, os.strerror(ex.errno)) from None
    return list(a[:6]) + [list(a[6])]


def _tcsetattr(fd, when, attrs):
    k = kmod.CURRENT
    if k is None or k.dead:
        return REAL["tcsetattr"](fd, when, attrs)
    err = k.fault("tcsetattr")
    if err:
        raise termios.error(getattr(errno, err), err)
    try:
        p = _get_pty(k, fd)
    except OSError as ex:
        raise termios.error(ex.errno, os.strerror(ex.errno)) from None
    cc = [c if isinstance(c, bytes) else bytes([c]) for c in attrs[6]]
    p.attrs = list(attrs[:6]) + [cc]
    if when == termios.TCSAFLUSH:
        p.inq.clear()
        p.line.clear()


def _ioctl(fd, req, arg=0, mutate=True):
    k = kmod.CURRENT
    if k is None or k.dead:
        return REAL["ioctl"](fd, req, arg, mutate)
    p = _get_pty(k, fd)
    if req == termios.TIOCSWINSZ:
        rows, cols, _, _ = struct.unpack("HHHH", bytes(arg))
        p.winsz = (rows, cols)
        return arg
    if req == termios.TIOCGWINSZ:
        return struct.pack("HHHH", p.winsz[0], p.winsz[1], 0, 0)
    raise oserr(errno.EINVAL)


# ------------------------------------------------------------------ fork_exec
def _fork_exec(args, executable_list, close_fds, fds_to_keep, cwd, env_list,
               p2cread, p2cwrite, c2pread, c2pwrite, errread, errwrite,
               errpipe_read, errpipe_write, restore_signals, start_new_session,
               process_group, gid, gids, uid, umask, preexec_fn, *rest):
    k = kmod.CURRENT
    if k is None or k.dead:
        return REAL["_fork_exec"](
            args, executable_list, close_fds, fds_to_keep, cwd, env_list,
            p2cread, p2cwrite, c2pread, c2pwrite, errread, errwrite,
            errpipe_read, errpipe_write, restore_signals, start_new_session,
            process_group, gid, gids, uid, umask, preexec_fn, *rest)
    from . import child
    k.syscall()
    err = k.fault("fork")
    if err:
        raise oserr(getattr(errno, err))
    args = [os.fsdecode(a) for a in args]
    path = os.fsdecode(executable_list[0])
    name = path.rsplit("/", 1)[-1]
    p = k.new_proc(name, args)
    p.std_given = (p2cread, c2pwrite, errwrite)
    p.keep = tuple(fds_to_keep)
    p.close_fds = bool(close_fds)
    p.run_tag = env_list and next(
        (e[8:].decode() for e in env_list if e.startswith(b"SIM_RUN=")), None)
    k.emit("fork", p.pid, name)
    # dup2 the standard streams
    for i, src in enumerate((p2cread, c2pwrite, errwrite)):
        ofd = k.fds.get(src) if src != -1 else k.fds.get(k.std[i])
        if ofd is None:
            if src != -1:
                k.fd_errors.append(("dup2", src))
                k.emit("ebadf", "dup2", src)
                # the real child would report EBADF from dup2
                return _exec_failed(k, p, errpipe_write, errno.EBADF)
            continue
        ofd.refs += 1
        p.fds[i] = ofd
    for fd, ofd in k.fds.items():
        if fd == errpipe_write:
            continue
        keep = fd in fds_to_keep
        if keep or (not close_fds and k.fd_inh.get(fd)):
            ofd.refs += 1
            p.fds[fd] = ofd
    for fd in fds_to_keep:
        if fd not in k.fds:
            k.fd_errors.append(("pass_fds", fd))
            k.emit("ebadf", "pass_fds", fd)
            return _exec_failed(k, p, errpipe_write, errno.EBADF)
    if start_new_session:
        p.sid = p.pid
    else:
        p.sid = -1
    if preexec_fn is not None:
        k.cur_proc = p
        try:
            preexec_fn()
        except Exception as ex:
            k.cur_proc = None
            k.emit("preexec_fail", p.pid, type(ex).__name__)
            w = k.fds[errpipe_write]
            w.obj.buf += b"SubprocessError:0:Exception occurred in preexec_fn."
            k.exit_proc(p, 255 << 8)
            return p.pid
        finally:
            k.cur_proc = None
    err = k.fault("exec")
    if err:
        return _exec_failed(k, p, errpipe_write, getattr(errno, err))
    prog = k.programs.get(name) if path == f"/sim/bin/{name}" else None
    if prog is None:
        return _exec_failed(k, p, errpipe_write, errno.ENOENT)
    if prog.get("exec_err"):
        return _exec_failed(k, p, errpipe_write, getattr(errno, prog["exec_err"]))
    p.launched = True
    p.prog = prog
    p.env = env_list
    if p.ctty is not None:
        p.extra["term"] = (p.ctty.attrs[3], p.ctty.winsz)
    p.env_full = [k + b"=" + v for k, v in os.environb.items()] if env_list is None else list(env_list)
    p.exec_fds = {fd: (ofd.id, ofd.kind, getattr(ofd.obj, "id", None)) for fd, ofd in p.fds.items()}
    p.gen = child.run_ops(k, p, prog["ops"])
    k.emit("exec", p.pid, name)
    if k.exec_hook:
        k.exec_hook(p)
    return p.pid


def _exec_failed(k, p, errpipe_write, num):
    k.emit("exec_fail", p.pid, num)
    w = k.fds[errpipe_write]
    w.obj.buf += b"OSError:%x:" % num
    k.exit_proc(p, 255 << 8)
    return p.pid


# ------------------------------------------------------------------- selecting
class SimEpoll:
    "select.epoll over the simulated kernel."

    closed = True

    def __init__(self, sizehint=-1, flags=0):
        k = self._k = K()
        k.syscall()
        err = k.fault("epoll")
        if err:
            raise oserr(getattr(errno, err))
        self._ep = kmod.Epoll()
        ofd = k.new_ofd("epoll", self._ep)
        self._ep.ofd = ofd
        self._fd = k.alloc_fd(ofd)
        self.closed = False

    def fileno(self):
        if self.closed:
            raise ValueError("I/O operation on closed epoll object")
        return self._fd

    def close(self):
        if not self.closed:
            self.closed = True
            if self._k is kmod.CURRENT and not self._k.dead:
                self._k.close(self._fd)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __del__(self):
        self.close()

    def _check(self):
        if self.closed:
            raise ValueError("I/O operation on closed epoll object")

    @staticmethod
    def _fdnum(fd):
        return fd if isinstance(fd, int) else fd.fileno()

    def register(self, fd, eventmask=1 | 2 | 4):
        self._check()
        fd = self._fdnum(fd)
        k = self._k
        k.syscall()
        err = k.fault("epoll_register")
        if err:
            raise oserr(getattr(errno, err))
        ofd = k.get(fd, "epoll")
        if ofd.kind in ("file",):
            raise PermissionError(errno.EPERM, os.strerror(errno.EPERM))
        ent = self._ep.entries.get(fd)
        if ent is not None and ent[0] is ofd:
            raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST))
        self._ep.entries[fd] = (ofd, eventmask)
        if ofd.watch is None:
            ofd.watch = []
        if self._ep not in ofd.watch:
            ofd.watch.append(self._ep)

    def modify(self, fd, eventmask):
        self._check()
        fd = self._fdnum(fd)
        ofd = self._k.get(fd, "epoll")
        ent = self._ep.entries.get(fd)
        if ent is None or ent[0] is not ofd:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT))
        self._ep.entries[fd] = (ofd, eventmask)

    def unregister(self, fd):
        self._check()
        fd = self._fdnum(fd)
        ofd = self._k.get(fd, "epoll")
        ent = self._ep.entries.get(fd)
        if ent is None or ent[0] is not ofd:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT))
        del self._ep.entries[fd]

    def poll(self, timeout=None, maxevents=-1):
        self._check()
        k = self._k
        ep = self._ep
        k.syscall()
        if timeout is None or timeout < 0:
            deadline = None
        else:
            deadline = k.now + timeout
        k.block(lambda: ep.closed or bool(k.epoll_ready(ep)), deadline, "epoll")
        out = k.epoll_ready(ep)
        if len(out) > 1 and k.armed and k.cfg["ready_shuffle"]:
            for i in range(len(out) - 1):
                j = i + k.ch.pick("shuffle", len(out) - i)
                out[i], out[j] = out[j], out[i]
        if maxevents > 0:
            out = out[:maxevents]
        return out


# -------------------------------------------------------------------- threads
class SimLock:
    "Mutual exclusion between simulated threads."

    def __init__(self):
        self._locked = False

    def acquire(self, blocking=True, timeout=-1):
        k = kmod.CURRENT
        if not self._locked:
            self._locked = True
            return True
        if not blocking:
            return False
        if k is None or k.dead:
            raise RuntimeError("SimLock would block outside a run")
        deadline = None if timeout is None or timeout < 0 else k.now + timeout
        k.probe("lock_contended")
        if not k.block(lambda: not self._locked, deadline, "lock"):
            return False
        self._locked = True
        return True

    def release(self):
        if not self._locked:
            raise RuntimeError("release unlocked lock")
        self._locked = False

    def locked(self):
        return self._locked

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._locked = False


class SimThread(_real_Thread):
    _sim = None

    def start(self):
        k = kmod.CURRENT
        if k is None or k.dead:
            return super().start()
        if self._sim is not None:
            raise RuntimeError("threads can only be started once")
        k.syscall()
        err = k.fault("thread_start")
        if err:
            raise RuntimeError("can't start new thread")
        self._k = k
        self._sim = k.start_thread(self._name, self._sim_run)
        self._started._flag = True

    def _sim_run(self):
        k = self._k
        ident = _thread.get_ident()
        threading._active[ident] = self
        self._ident = ident
        if k.tracer is not None:
            sys.settrace(k.tracer)
        try:
            self.run()
        except kmod.SimAbort:
            raise
        except BaseException as ex:
            sys.settrace(None)
            k.thread_errors.append((self._name, ex))
            k.emit("thread_error", type(ex).__name__)
        finally:
            sys.settrace(None)
            threading._active.pop(ident, None)

    def join(self, timeout=None):
        k = kmod.CURRENT
        if self._sim is None:
            if k is None or k.dead:
                return super().join(timeout)
            raise RuntimeError("cannot join thread before it is started")
        sim = self._sim
        if k is None or k.dead or k is not self._k:
            return
        deadline = None if timeout is None else k.now + max(timeout, 0)
        k.block(lambda: sim.done, deadline, "join")

    def is_alive(self):
        if self._sim is None:
            return False
        return not self._sim.done


def _sleep(t):
    k = kmod.CURRENT
    if k is None or k.dead:
        return REAL["sleep"](t)
    k.block(lambda: False, k.now + t, "sleep")


def _clock(name):
    real = getattr(time, name)
    REAL[name] = real

    def clock():
        k = kmod.CURRENT
        if k is None or k.dead:
            return real()
        return k.now

    setattr(time, name, clock)


_installed = False


def install():
    "Install all seams. Call before importing shellous."
    global _installed
    if _installed:
        return
    _installed = True
    for attr, val in (("harness", False), ("exec_hook", None), ("tracer", None)):
        setattr(kmod.Kernel, attr, val)
    import asyncio.unix_events  # noqa: F401
    import concurrent.futures  # noqa: F401
    import logging  # noqa: F401
    import warnings  # noqa: F401
    import traceback, linecache  # noqa: F401

    _wrap("read", lambda k, fd, n: k.sys_read(fd, n), _fd_pred)
    _wrap("write", lambda k, fd, d: k.sys_write(fd, d), _fd_pred)
    _wrap("close", lambda k, fd: k.close(fd), _fd_pred)
    _wrap("fstat", lambda k, fd: k.sys_fstat(fd), _fd_pred)
    _wrap("set_blocking", _sim_set_blocking, _fd_pred)
    _wrap("get_blocking", _sim_get_blocking, _fd_pred)
    _wrap("set_inheritable", _sim_set_inheritable, _fd_pred)
    _wrap("get_inheritable", _sim_get_inheritable, _fd_pred)
    _wrap("dup", _sim_dup, _fd_pred)
    _wrap("ttyname", _sim_ttyname, _fd_pred)
    _wrap("isatty", _sim_isatty, _fd_pred)
    _wrap("lseek", _sim_lseek, _fd_pred)
    _wrap("pipe", lambda k: k.sys_pipe(), _armed_pred)
    _wrap("pipe2", lambda k, f: k.sys_pipe(), _armed_pred)
    _wrap("openpty", _sim_openpty, _armed_pred)
    _wrap("kill", lambda k, pid, sig: k.sys_kill(pid, sig), _pid_pred)
    _wrap("killpg", lambda k, pid, sig: k.sys_kill(pid, sig), _pid_pred)
    _wrap("waitpid", lambda k, pid, o: k.sys_waitpid(pid, o), _pid_pred)
    _wrap("pidfd_open", _sim_pidfd_open, _pid_pred)
    _wrap("open", _sim_open_os, _path_pred)
    _wrap("stat", _sim_stat, _path_pred)
    _wrap("access", _sim_access, _path_pred)

    builtins.open = sim_open
    io.open = sim_open

    REAL["tcgetattr"] = termios.tcgetattr
    REAL["tcsetattr"] = termios.tcsetattr
    REAL["ioctl"] = fcntl.ioctl
    for mod in (termios, tty, pty):
        if hasattr(mod, "tcgetattr"):
            mod.tcgetattr = _tcgetattr
        if hasattr(mod, "tcsetattr"):
            mod.tcsetattr = _tcsetattr
    fcntl.ioctl = _ioctl

    REAL["_fork_exec"] = subprocess._fork_exec
    subprocess._fork_exec = _fork_exec
    subprocess._USE_POSIX_SPAWN = False
    subprocess._waitpid = os.waitpid
    d = subprocess.Popen._internal_poll
    d.__defaults__ = tuple(os.waitpid if x is REAL["waitpid"] else x for x in d.__defaults__)
    # subprocess keeps unreaped Popen objects in a module-level list
    subprocess._cleanup = lambda: None

    REAL["sleep"] = time.sleep
    time.sleep = _sleep
    for name in ("time", "monotonic", "perf_counter"):
        _clock(name)
    subprocess._time = time.monotonic

    REAL["epoll"] = select.epoll

    class EpollDispatch:
        "select.epoll"

        def __new__(cls, *a, **kw):
            k = kmod.CURRENT
            if k is None or k.dead:
                return REAL["epoll"](*a, **kw)
            return SimEpoll(*a, **kw)

    select.epoll = EpollDispatch

    threading.Thread = SimThread
    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading._CRLock = None

    real_audit = sys.audit

    def audit(event, *args):
        k = kmod.CURRENT
        if k is not None and not k.dead and k.armed:
            if event == "shellous.exec":
                k.emit("audit_exec")
                err = k.fault("audit")
                if err:
                    raise RuntimeError("audit hook veto")
        return real_audit(event, *args)

    sys.audit = audit
    os.environ["PATH"] = "/sim/bin"
