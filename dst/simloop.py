"""asyncio on the simulated kernel: the real selector event loop, transports,
child watchers and task machinery, with time, polling and set order simulated."""

import asyncio
import selectors
import sys
import threading
import warnings
from asyncio import events, unix_events

from . import kernel as kmod
from .patch import SimEpoll


class _Hash:
    "Deterministic (seeded) hashes, so that sets of tasks iterate reproducibly."
    state = 0

    @classmethod
    def next(cls):
        cls.state = (cls.state * 6364136223846793005 + 1442695040888963407) & ((1 << 64) - 1)
        return cls.state >> 20


class SimTask(asyncio.Task):
    def __new__(cls, *a, **kw):
        self = super().__new__(cls)
        self.sim_hash = _Hash.next()
        return self

    def __hash__(self):
        return self.sim_hash


class SimFuture(asyncio.Future):
    def __new__(cls, *a, **kw):
        self = super().__new__(cls)
        self.sim_hash = _Hash.next()
        return self

    def __hash__(self):
        return self.sim_hash


class SimSelector(selectors.EpollSelector):
    _selector_cls = SimEpoll

    def __init__(self, loop):
        self._loop_ref = loop
        super().__init__()

    def select(self, timeout=None):
        loop = self._loop_ref
        k = kmod.CURRENT
        ep = self._selector._ep
        k.selects += 1
        c = k.cfg
        k.now += c["sel_cost"]
        trig = k.triggers.get("select")
        if trig:
            for item in list(trig):
                if item[0] <= k.selects:
                    trig.remove(item)
                    item[1]()
        if loop._ready:
            timeout = 0
        entered = k.now
        if k.armed and c["stall"] and k.ch.chance("stall", c["stall"]):
            d = (0.001, 0.05, 0.4, 2.0, 7.0)[k.ch.pick("stalln", 5)]
            start = k.now
            k.fire("loop_stall")
            k.block(lambda: False, k.now + d, "stall")
            k.stall_log.append((start, k.now))
            k.stalled += k.now - start
        if timeout is None:
            deadline = None
        else:
            deadline = max(k.now, entered + timeout)
        k.syscall()
        k.block(lambda: bool(k.epoll_ready(ep)) or loop._woken, deadline, "select")
        loop._woken = False
        ready = k.epoll_ready(ep)
        if len(ready) > 1 and k.armed and c["ready_shuffle"]:
            for i in range(len(ready) - 1):
                j = i + k.ch.pick("shuffle", len(ready) - i)
                ready[i], ready[j] = ready[j], ready[i]
        out = []
        for fd, event in ready:
            events_ = 0
            if event & ~kmod.EPOLLIN:
                events_ |= selectors.EVENT_WRITE
            if event & ~kmod.EPOLLOUT:
                events_ |= selectors.EVENT_READ
            key = self._fd_to_key.get(fd)
            if key:
                out.append((key, events_ & key.events))
        return out


class SimLoop(unix_events._UnixSelectorEventLoop):
    def __init__(self):
        self._woken = False
        super().__init__(SimSelector(self))
        self._clock_resolution = 1e-9
        self.slow_callback_duration = 1e9
        self.unhandled = []
        self.set_exception_handler(self._on_unhandled)

    @staticmethod
    def _on_unhandled(loop, context):
        loop.unhandled.append(context)
        k = kmod.CURRENT
        if k is not None and not k.dead:
            ex = context.get("exception")
            k.emit("unhandled", context.get("message", "")[:60], type(ex).__name__ if ex else "")

    def time(self):
        k = kmod.CURRENT
        return k.now if k is not None else 0.0

    def _make_self_pipe(self):
        self._ssock = None
        self._csock = None

    def _close_self_pipe(self):
        pass

    def _write_to_self(self):
        self._woken = True

    def create_future(self):
        return SimFuture(loop=self)

    def close(self):
        super().close()


def task_factory(loop, coro, **kw):
    return SimTask(coro, loop=loop, **kw)


def eager_factory(loop, coro, **kw):
    return SimTask(coro, loop=loop, eager_start=True, **kw)


class SimPolicy(asyncio.DefaultEventLoopPolicy):
    _loop_factory = SimLoop

    def __init__(self, watcher):
        super().__init__()
        self._watcher = watcher

    def get_child_watcher(self):
        return self._watcher

    def set_child_watcher(self, watcher):
        self._watcher = watcher


def make_watcher(kind):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if kind == "pidfd":
            return unix_events.PidfdChildWatcher()
        if kind == "thread":
            return unix_events.ThreadedChildWatcher()
        from shellous.watcher import DefaultChildWatcher
        if kind == "sh-epoll":
            return DefaultChildWatcher()
        if kind == "sh-thread":
            return DefaultChildWatcher(thread_strategy=True)
    raise ValueError(kind)
