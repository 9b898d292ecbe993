"""C15: harvest() and harvest_results() on generated sets of awaitables.

The scenario calls the real functions with awaitables that finish, fail, delay,
ignore cancellation, clean up slowly or nest another harvest, and cancels the
caller at chosen instants.  The judge only looks at the recorded history: when
each awaitable ended and how, when each task was asked to cancel, and what the
call returned.
"""

import asyncio
import inspect
import random

from . import simloop

TIMES = [0.0, 0.001, 0.5, 0.5, 1.0, 1.0, 1.000001, 0.999999, 1.5, 2.0, 2.0, 3.0]
EXCS = {"ValueError": ValueError, "OSError": OSError, "KeyError": KeyError, "TimeoutError": TimeoutError,
        "RuntimeError": RuntimeError, "AssertionError": AssertionError, "EOFError": EOFError}


# ------------------------------------------------------------------ generator
def _aw(r, depth, ids):
    ids[0] += 1
    d = dict(id=ids[0])
    x = r.random()
    if depth == 0 and x < 0.12:
        d["kind"] = "harvest"
        d["call"] = _call(r, depth + 1, ids)
        return d
    if x < 0.2:
        d["kind"] = "future"
        d["at"] = r.choice(TIMES)
        d["end"] = _end(r)
        return d
    d["kind"] = "task" if x < 0.45 else "coro"
    steps = []
    for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
        if r.random() < 0.3:
            steps.append(["yield", r.choice([0, 1, 1, 2, 3])])
        else:
            steps.append(["sleep", r.choice(TIMES)])
    d["steps"] = steps
    d["end"] = _end(r)
    y = r.random()
    if y < 0.35:
        d["cleanup"] = r.choice([0.0, 0.001, 0.3, 0.5, 0.5, 1.0, 1.9])
        d["cend"] = r.choice([["cancel"], ["cancel"], ["raise", r.choice(list(EXCS))], ["ret", 7]])
        if r.random() < 0.3:
            d["stubborn"] = r.choice([1, 1, 2])   # cleanup restarted when cancelled again
    elif y < 0.5:
        d["ignore"] = r.choice([1, 1, 2, 9])
    if r.random() < 0.1:
        d["steps"].append(["sleep", 40.0])
    return d


def _end(r):
    x = r.random()
    if x < 0.62:
        return ["ret", int(r.random() * 1000)]
    if x < 0.95:
        names = list(EXCS)
        w = [4, 4, 3, 2, 0.5, 0.3, 2]
        return ["raise", r.choices(names, w)[0]]
    return ["cancel"]


def _call(r, depth, ids):
    c = dict(fn=r.choice(["harvest", "harvest", "results", "results", "wait"]))
    n = r.choice([1, 1, 2, 2, 3, 3, 4, 5]) if depth == 0 else r.choice([1, 2])
    c["aws"] = [_aw(r, depth, ids) for _ in range(n)]
    if r.random() < 0.5:
        c["timeout"] = r.choice([0.0, 0.5, 1.0, 1.0, 1.5, 2.0, 2.5])
    if r.random() < 0.6:
        c["cancel_timeout"] = r.choice([0.5, 1.0, 2.0, 2.0, 5.0])
    if c["fn"] in ("results", "wait") and r.random() < 0.35:
        c["return_when"] = "ALL_COMPLETED"
    if c["fn"] in ("harvest", "wait") and r.random() < 0.25:
        c["cancel_finish"] = True
    if depth == 0:
        cancels = []
        if r.random() < 0.55:
            for _ in range(r.choice([1, 1, 1, 2, 2, 3])):
                if r.random() < 0.5:
                    cancels.append(["t", r.choice(TIMES)])
                else:
                    cancels.append(["sel", r.choice([1, 1, 2, 2, 3, 4, 6])])
        c["cancels"] = cancels
        if r.random() < 0.15:
            c["wrap"] = r.choice([0.5, 1.0, 1.5, 2.0])
        if r.random() < 0.3:
            c["gap"] = r.choice([0.0, 0.5])
    return c


def generate(seed):
    r = random.Random(f"harvest/{seed}")
    ids = [0]
    calls = [_call(r, 0, ids) for _ in range(r.choice([1, 1, 1, 2, 3]))]
    return dict(
        seed=int(r.random() * (1 << 40)), family="harvest", prop="C15",
        kcfg=dict(stall=r.choice([0, 0, 0, 0.02]), max_steps=100000),
        loop=dict(watcher="pidfd", eager=r.random() < 0.15, hash=1 + int(r.random() * 1e9)),
        calls=calls)


# ------------------------------------------------------------------- scenario
class HTask(simloop.SimTask):
    "A task that remembers when it was asked to cancel."

    def __init__(self, *a, **kw):
        self.asked = []
        super().__init__(*a, **kw)

    def __hash__(self):
        return self.sim_hash

    def cancel(self, msg=None):
        ok = super().cancel(msg)
        fam = _FAM[0]
        fam.seq += 1
        self.asked.append((fam.sim.k.now, fam.seq, ok))
        fam.sim.k.emit("hcancel", getattr(self, "label", "?"), ok)
        return ok


class HFuture(simloop.SimFuture):
    def __init__(self, *a, **kw):
        self.asked = []
        super().__init__(*a, **kw)

    def __hash__(self):
        return self.sim_hash

    def cancel(self, msg=None):
        ok = super().cancel(msg)
        fam = _FAM[0]
        fam.seq += 1
        self.asked.append((fam.sim.k.now, fam.seq, ok))
        fam.sim.k.emit("hcancel", getattr(self, "label", "?"), ok)
        return ok


_FAM = [None]


class AwRec:
    def __init__(self, d):
        self.d = d
        self.obj = None       # task or future
        self.coro = None
        self.end = None       # (time, seq, "ret"|"raise"|"cancel", value)
        self.call = None
        self.note = None

    def done(self):
        if self.obj is not None:
            return self.obj.done()
        return inspect.getcoroutinestate(self.coro) == inspect.CORO_CLOSED


class CallRec:
    def __init__(self, d):
        self.d = d
        self.aws = []
        self.t0 = self.s0 = None
        self.t1 = self.s1 = None
        self.out = None       # ("ret", value) | ("exc", ex)
        self.undone = None
        self.task = None
        self.asked = []       # cancel requests while the call was in progress


class Family:
    def __init__(self, sim):
        self.sim = sim
        self.seq = 0
        self.calls = []
        self.by_coro = {}

    def tick(self):
        self.seq += 1
        return self.seq

    def nontrivial(self, sim):
        return any(c.interesting for c in self.calls if hasattr(c, "interesting"))

    def judge(self, sim):
        for c in self.calls:
            if c.out is not None and c.t0 is not None:
                judge_call(sim, c)
                self.judge_consumed(sim, c)

    def judge_consumed(self, sim, c):
        "The event loop must not complain about exceptions that nobody retrieved."
        if c.d["fn"] == "wait":
            return      # its caller looks at the tasks
        if c.out[0] == "exc" and "_cancel_waiter failed" in str(c.out[1]):
            return      # given up
        for a in c.aws:
            if a in c.undone or not isinstance(a.obj, asyncio.Task) or not a.obj.done() or a.obj.cancelled():
                continue
            if a.end is None or a.end[2] != "raise" or a.end[1] > c.s1:
                continue
            if a.obj._log_traceback:
                sim.violate(("C21",), "exception-never-retrieved",
                            f"{c.d['fn']}: awaitable {a.d['id']} raised {a.end[3]!r}, outcome {c.out[0]} {c.out[1]!r}")

    def judge_hang(self, sim):
        sim.violate(("C15",), "harvest-hang", f"{sim.hang}")

    # ------------------------------------------------------------ awaitables
    def ended(self, ar, how, val):
        ar.end = (self.sim.k.now, self.tick(), how, val)
        self.sim.k.emit("aw_end", ar.d["id"], how)

    async def body(self, ar):
        d = ar.d
        task = asyncio.current_task()
        task.label = d["id"]
        ar.obj = task
        try:
            if d["kind"] == "harvest":
                val = await self.call(ar.call)
            else:
                val = await self.script(d)
        except asyncio.CancelledError as ex:
            self.ended(ar, "cancel", ex)
            raise
        except BaseException as ex:
            self.ended(ar, "raise", ex)
            raise
        self.ended(ar, "ret", val)
        return val

    async def script(self, d):
        k = self.sim.k
        ignore = d.get("ignore", 0)
        try:
            for op, n in d["steps"]:
                if op == "yield":
                    left = n
                    while left:
                        left -= 1
                        try:
                            await asyncio.sleep(0)
                        except asyncio.CancelledError:
                            if not ignore:
                                raise
                            ignore -= 1
                else:
                    until = k.now + n
                    while True:
                        try:
                            await asyncio.sleep(max(0.0, until - k.now))
                            break
                        except asyncio.CancelledError:
                            if not ignore:
                                raise
                            ignore -= 1
        except asyncio.CancelledError:
            if "cleanup" in d:
                again = d.get("stubborn", 0)
                while True:
                    try:
                        await asyncio.sleep(d["cleanup"])
                        break
                    except asyncio.CancelledError:
                        if not again:
                            raise
                        again -= 1
                return self.finish(d["cend"], d)
            raise
        return self.finish(d["end"], d)

    def finish(self, end, d):
        if end[0] == "ret":
            return (d["id"], end[1])
        if end[0] == "cancel":
            raise asyncio.CancelledError()
        raise EXCS[end[1]](f"aw{d['id']}")

    def make(self, d):
        loop = self.sim.loop
        ar = AwRec(d)
        if d["kind"] == "future":
            fut = ar.obj = HFuture(loop=loop)
            fut.label = d["id"]

            def fire():
                if fut.done():
                    return
                end = d["end"]
                if end[0] == "ret":
                    fut.set_result((d["id"], end[1]))
                elif end[0] == "cancel":
                    fut.set_exception(ValueError(f"aw{d['id']}"))
                else:
                    fut.set_exception(EXCS[end[1]](f"aw{d['id']}"))
            loop.call_later(d["at"], fire)

            def note(f):
                if ar.end is not None:
                    return
                if f.cancelled():
                    self.ended(ar, "cancel", None)
                elif f.exception() is not None:
                    self.ended(ar, "raise", f.exception())
                else:
                    self.ended(ar, "ret", f.result())
            fut.add_done_callback(note)
            ar.note = note
            return ar, fut
        if d["kind"] == "harvest":
            ar.call = self.prepare(d["call"])
        ar.coro = self.body(ar)
        self.by_coro[id(ar.coro)] = ar
        if d["kind"] == "task":
            t = loop.create_task(ar.coro)
            ar.obj = t
            return ar, t
        return ar, ar.coro

    def prepare(self, d):
        c = CallRec(d)
        self.calls.append(c)
        return c

    # ------------------------------------------------------------------ calls
    async def call(self, c):
        from shellous import harvest as mod
        k = self.sim.k
        d = c.d
        pairs = [self.make(a) for a in d["aws"]]
        c.aws = [a for a, _ in pairs]
        aws = [o for _, o in pairs]
        kw = {}
        for key in ("timeout", "cancel_timeout", "cancel_finish"):
            if key in d:
                kw[key] = d[key]
        if "return_when" in d:
            kw["return_when"] = getattr(asyncio, d["return_when"])
        c.task = asyncio.current_task()
        before = len(c.task.asked)
        c.t0, c.s0 = k.now, self.tick()
        try:
            if d["fn"] == "harvest":
                val = await mod.harvest(*aws, **kw)
            elif d["fn"] == "results":
                val = await mod.harvest_results(*aws, **kw)
            else:
                tasks = [asyncio.ensure_future(a) for a in aws]
                for a, t in zip(c.aws, tasks):
                    a.obj = t
                val = await mod.harvest_wait(tasks, **kw)
            c.out = ("ret", val)
        except BaseException as ex:
            c.out = ("exc", ex)
            if type(ex).__name__ in ("SimAbort", "SimDeadlock", "SimLivelock", "SimHang", "GeneratorExit"):
                raise
        for a in c.aws:
            if a.note is not None and a.obj.done():
                a.note(a.obj)      # (its callback may still be waiting its turn)
        c.t1, c.s1 = k.now, self.tick()
        c.asked = c.task.asked[before:]
        c.undone = [a for a in c.aws if not a.done()]
        k.emit("harvest_end", d["fn"], c.out[0], type(c.out[1]).__name__)
        for a in c.undone:
            if a.obj is not None:
                a.obj.cancel()
        if c.out[0] == "exc":
            raise c.out[1]
        if d["fn"] == "results" and c.out[1][0]:
            raise asyncio.CancelledError()
        return c.out[1]

    async def top(self, c):
        d = c.d
        if d.get("gap"):
            await asyncio.sleep(d["gap"])
        me = asyncio.current_task()
        me.label = "caller"
        k = self.sim.k
        loop = self.sim.loop
        handles = []
        for how, n in d["cancels"]:
            if how == "t":
                handles.append(loop.call_later(n, me.cancel))
            else:
                k.triggers.setdefault("select", []).append([k.selects + n, me.cancel])
        try:
            if "wrap" in d:
                async with asyncio.timeout(d["wrap"]):
                    await self.call(c)
            else:
                await self.call(c)
        except (Exception, asyncio.CancelledError):
            pass
        finally:
            for h in handles:
                h.cancel()
            k.triggers.pop("select", None)


async def main(sim):
    fam = sim.family = Family(sim)
    _FAM[0] = fam
    sim.cleanups.append(lambda: _FAM.__setitem__(0, None))
    loop = sim.loop
    eager = sim.spec["loop"].get("eager")

    def factory(loop, coro, **kw):
        if eager:
            kw["eager_start"] = True
        return HTask(coro, loop=loop, **kw)
    loop.set_task_factory(factory)
    sim.k.armed = True
    for d in sim.spec["calls"]:
        c = fam.prepare(d)
        t = asyncio.ensure_future(fam.top(c))
        await asyncio.wait([t])
        for a in c.aws:
            if not a.done() and a.obj is not None:
                for _ in range(15):
                    a.obj.cancel()
                    await asyncio.sleep(0.01)
    sim.k.armed = False


# ---------------------------------------------------------------------- judge
EPS = 0.02


def judge_call(sim, c):
    d = c.d
    fn = d["fn"]
    eps = EPS + sum(max(0.0, min(b, c.t1) - max(a, c.t0 - 0.001)) for a, b in sim.k.stall_log
                    if b > c.t0 - 0.001 and a < c.t1)

    def bad(kind, text):
        sim.violate(("C15",), kind, f"{fn}({', '.join(str(a.d['id']) + ':' + a.d['kind'] for a in c.aws)}) "
                    f"timeout={d.get('timeout')} outcome {c.out[0]} {c.out[1]!r} after {c.t1 - c.t0:.4f} s: {text}")

    cancels = [t for t, s, ok in c.asked if ok]
    first_cancel = min(cancels) if cancels else None
    deadline = c.t0 + d["timeout"] if "timeout" in d else None
    all_completed = d.get("return_when") == "ALL_COMPLETED"
    ct = d.get("cancel_timeout", 15.0)
    finish = bool(d.get("cancel_finish"))
    asks = {}
    for a in c.aws:
        asks[a] = [t for t, s, ok in (a.obj.asked if a.obj is not None else ())]
    # (an awaitable that never started has no end of its own; it ended when cancelled)
    fails = [a for a in c.aws if a.end and a.end[2] == "raise" and a.end[1] < c.s1]
    # Failures that ended the wait: those of awaitables nobody had asked to stop.
    first_fail = min((a.end[0] for a in fails), default=None)
    triggers = [t for t in (first_cancel, deadline, None if all_completed else first_fail) if t is not None]
    trig = min(triggers) if triggers else None
    c.interesting = trig is not None and any(a.end is None or a.end[0] > trig for a in c.aws)
    what = c.out[1]
    exc = what if c.out[0] == "exc" else None

    # --- somebody refused to finish for longer than the cancel timeout
    refused = False
    for a in c.aws:
        base = asks[a][0] if asks[a] else None
        if finish and first_cancel is not None and (base is None or first_cancel < base):
            base = first_cancel
        if base is None:
            continue
        e = a.end[0] if a.end else (c.t1 + 99 if a in c.undone else base)
        if e - base >= ct - eps:
            refused = True
    # --- everything is done
    if c.undone and not refused:
        bad("harvest-unfinished", f"awaitables {[a.d['id'] for a in c.undone]} are not done")
    raised_in = [a.end[3] for a in fails]
    if isinstance(exc, (RuntimeError, AssertionError)) and not any(exc is x for x in raised_in):
        inner = any(a.call is not None for a in c.aws)
        if not refused and not inner:
            bad("harvest-error", f"unexpected {exc!r}")
        return
    if refused:
        return
    is_cancel = isinstance(exc, asyncio.CancelledError) or (fn == "results" and exc is None and what[0])
    is_timeout = isinstance(exc, asyncio.TimeoutError) and not any(exc is x for x in raised_in)
    important = exc is not None and any(exc is x for x in raised_in) and isinstance(exc, (RuntimeError, AssertionError))
    own = exc is not None and any(exc is x for x in raised_in)

    # --- cancellation
    if cancels and not is_cancel and not (fn == "results" and important):
        bad("harvest-cancel-lost", f"cancelled at +{first_cancel - c.t0:.4f} but did not report it")
    if is_cancel and not cancels:
        bad("harvest-cancel-invented", "nobody cancelled the caller")
    # --- timeout
    late = [a for a in c.aws if deadline is not None and (a.end[0] if a.end else c.t1) > deadline + eps]
    if is_timeout:
        if deadline is None:
            bad("harvest-timeout-invented", "no timeout was given")
        elif c.t1 < deadline - eps:
            bad("harvest-timeout-early", f"raised before {deadline - c.t0:.3f} s")
        elif all((a.end and a.end[0] < deadline - eps) for a in c.aws):
            bad("harvest-timeout-wrong", "everything had finished in time")
    elif deadline is not None and late and not cancels and not own:
        # cancelled (late ones) because of a failure before the deadline?
        if all_completed or first_fail is None or first_fail > deadline + eps:
            bad("harvest-timeout-missed", f"{[a.d['id'] for a in late]} were unfinished at the timeout")
    # (awaitables that the timeout cancelled end right at the deadline)
    elif deadline is not None and not cancels and not own:
        cut = [a for a in c.aws if asks[a] and asks[a][0] >= deadline - eps]
        if cut and (all_completed or first_fail is None or first_fail > deadline + eps):
            bad("harvest-timeout-missed", f"{[a.d['id'] for a in cut]} were cancelled by the timeout")
    # --- failures
    if fn == "harvest" and exc is None:
        if fails:
            bad("harvest-failure-lost", f"{[a.d['id'] for a in fails]} raised")
    if fn == "harvest" and exc is not None and not is_cancel and not is_timeout and not own:
        bad("harvest-foreign-exception", f"{exc!r} was raised by none of the awaitables")
    if fn == "wait" and exc is not None and not is_cancel and not is_timeout:
        bad("harvest-foreign-exception", f"harvest_wait raised {exc!r}")
    if fn == "results" and exc is not None and not is_timeout and not important:
        bad("harvest-foreign-exception", f"harvest_results raised {exc!r}")
    # --- results in argument order
    if fn == "results" and exc is None:
        res = what[1]
        if len(res) != len(c.aws):
            bad("harvest-results", f"{len(res)} results for {len(c.aws)} awaitables")
        else:
            for a, v in zip(c.aws, res):
                how = a.end[2] if a.end else "cancel"
                if how == "ret":
                    ok = v == a.end[3] and not isinstance(v, BaseException)
                elif how == "raise":
                    ok = v is a.end[3]
                else:
                    ok = isinstance(v, asyncio.CancelledError)
                if not ok:
                    bad("harvest-results", f"awaitable {a.d['id']} ended with {how} but its result is {v!r}")
    # --- the others are cancelled at once, and not before there is a reason
    for a in c.aws:
        end_t = a.end[0] if a.end else c.t1
        first_ask = asks[a][0] if asks[a] else None
        if first_ask is not None and first_ask < c.t0:
            continue
        if finish and first_cancel is not None and first_cancel <= trig + 1e-9:
            if first_ask is not None and first_ask < c.t1 and not (
                    (deadline is not None and deadline <= first_cancel + eps)
                    or (first_fail is not None and first_fail <= first_cancel + eps)):
                bad("harvest-cancelled-finish", f"awaitable {a.d['id']} was cancelled despite cancel_finish")
            continue
        if trig is not None and end_t > trig + eps and (first_ask is None or first_ask > trig + eps):
            if not (finish and first_cancel is not None and first_cancel <= trig + eps):
                bad("harvest-not-cancelled", f"awaitable {a.d['id']} was still running at +{trig - c.t0:.4f} but was "
                    f"asked to cancel {'never' if first_ask is None else f'at +{first_ask - c.t0:.4f}'}")
        if first_ask is not None and (trig is None or first_ask < trig - eps):
            bad("harvest-cancelled-early", f"awaitable {a.d['id']} was cancelled at +{first_ask - c.t0:.4f} for no reason")
    # --- and it returns as soon as all are done
    last = max([c.t0] + [a.end[0] for a in c.aws if a.end] + ([trig] if trig is not None and any(
        a.end is None for a in c.aws) else []))
    if c.t1 > last + eps:
        bad("harvest-late", f"everything was done at +{last - c.t0:.4f}")
