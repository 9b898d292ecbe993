"""C27: what `SHELLOUS_TRACE` may change.

The code under test is imported with tracing switched on; the same scenario is
also executed by a helper process which imported it without.  Both executions
must be the same, event for event, since the scheduler makes the same choices
as long as the code asks the same questions.
"""

import gc
import json
import logging
import os
import re
import subprocess
import sys

KIND = "trace"
TRACED = ("C27",)
ENV = "SHELLOUS_TRACE"

# (the simulator patches os once it runs)
_read, _write = os.read, os.write

_peer = None


def start(here):
    "Start the helper process; switch tracing on in this one."
    global _peer
    if _peer is None:
        env = {k: v for k, v in os.environ.items() if k != ENV}
        _peer = subprocess.Popen([sys.executable, "-B", "-m", "dst.check", "peer"], cwd=here, env=env,
                                 stdin=subprocess.PIPE, stdout=subprocess.PIPE)
    os.environ[ENV] = "all"


def _ask(spec, choices):
    data = json.dumps([spec, choices]).encode() + b"\n"
    fd = _peer.stdin.fileno()
    while data:
        data = data[_write(fd, data):]
    parts = []
    while not parts or not parts[-1].endswith(b"\n"):
        d = _read(_peer.stdout.fileno(), 1 << 16)
        if not d:
            raise RuntimeError("the untraced helper process ended")
        parts.append(d)
    st, value = json.loads(b"".join(parts))
    if st != "ok":
        raise RuntimeError(f"untraced execution failed: {value}")
    return value


def summary(s):
    "What happened, in a form that can be compared."
    log = [" ".join(str(x) for x in e) for e in s.k.log]
    outs = []
    for r in getattr(s, "recs", ()):
        o = r.outcome
        outs.append(None if o is None else [o[0], ADDR.sub('0x', repr(o[1]))[:300], round(r.end - s.k.t0, 9), len(r.lines), len(r.history)])
    return dict(log=log, outs=outs, hang=list(s.hang) if s.hang else None, viol=[[v.kind, v.detail[:300]] for v in s.violations])


class Records(logging.Handler):
    "Formats every record, as a user's handler would."

    def __init__(self, level):
        super().__init__(level)
        self.out = []
        self.failed = []
        self.open = {}

    def emit(self, record):
        try:
            text = record.getMessage()
        except BaseException as ex:
            self.failed.append(f"{record.msg!r}: {type(ex).__name__}: {ex}"[:300])
            return
        self.out.append((record.levelno, text))
        m = re.match(r"(\S+) step(in|out)\b", text)
        if m:
            n = self.open.get(m[1], 0)
            self.open[m[1]] = n + (1 if m[2] == "in" else -1)


ADDR = re.compile(r"0x[0-9a-f]+")


def execute(spec, choices=None):
    "Run with tracing; compare; append the violations."
    from . import sim as simmod
    import shellous.log
    assert shellous.log.LOG_DETAIL and shellous.log.LOG_PROMPT
    rec = Records(spec.get("trace_level", logging.INFO))
    lg = logging.getLogger("shellous")
    old = lg.handlers[:], lg.level
    lg.handlers[:] = [*old[0], rec]
    lg.setLevel(rec.level)
    try:
        s = simmod.run_spec(spec, choices)
    finally:
        lg.handlers[:] = old[0]
        lg.setLevel(old[1])
    s.trace = rec
    mine = summary(s)
    s.violations[:] = []        # they are other properties' business
    other = _ask(spec, choices)
    bad = lambda kind, detail: s.violate(["C27"], kind, detail)
    loose = left_early(spec, other)
    if loose:
        new = [v for v in mine["viol"] if v[0] not in {w[0] for w in other["viol"]} and v[0] not in KNOWN]
        if new:
            bad("trace-breaks", f"{new[0]}")
    elif mine["outs"] != other["outs"] or mine["hang"] != other["hang"]:
        pairs = [f"{b} became {a}" for a, b in zip(mine["outs"], other["outs"]) if a != b]
        bad("trace-changes-outcome", f"{'; '.join(pairs)} hang {other['hang']} -> {mine['hang']}"[:900])
    elif mine["log"] != other["log"]:
        n = next((i for i, (a, b) in enumerate(zip(mine["log"], other["log"])) if a != b), min(len(mine["log"]), len(other["log"])))
        bad("trace-changes-events", f"event {n}: {other['log'][n:n + 1]} became {mine['log'][n:n + 1]}")
    if rec.failed:
        bad("trace-record-fails", "; ".join(rec.failed[:3]))
    if not s.hang:
        left = {a: n for a, n in rec.open.items() if n}
        if left:
            bad("trace-unbalanced", f"entered but not left: {left}")
    secrets(s, rec, bad)
    sessions(s, rec, bad)
    return s


# Findings that are recorded as known: only some schedules show them.
KNOWN = ("timeout-in-loop-body", "status-255")


def left_early(spec, other):
    """A loop that is left early: the finalizers of the generators inside run as tasks
    of their own, one more for each generator that tracing wraps, so the schedules differ
    from there on."""
    runs = spec.get("runs", ())
    if not any(r.get("mode") == "aiter" for r in runs):
        return False
    return any(r.get("iter", {}).get(x) is not None for r in runs for x in ("break", "raise")) \
        or other["hang"] or any(o is None or o[0] != "ok" for o in other["outs"])


def secrets(s, rec, bad):
    for r in s.recs:
        shown = b"".join(bytes(p.ctty.shown) for c in r.cmds for p in c.procs if p.ctty is not None)
        for h in r.history:
            op = h["op"]
            if op[0] not in ("send", "command") or len(op) < 3 or not op[2].get("no_echo") or len(op[1]) < 10:
                continue
            pieces = {op[1][:10], op[1][-10:], op[1][len(op[1]) // 2 - 5:len(op[1]) // 2 + 5]}
            for text in pieces:
                if text.encode() in shown or any(x is not h and len(x["op"]) > 1 and text in str(x["op"][1]) for x in r.history):
                    continue
                hit = next((t for _, t in rec.out if text in t), None)
                if hit:
                    bad("secret-logged", f"{op[0]}({op[1][:20]!r}.., no_echo=True) was logged: {ADDR.sub('0x', hit)[:300]}")
                    return


def sessions(s, rec, bad):
    "The records of the prompt sessions."
    info = [t for lv, t in rec.out if lv >= logging.INFO and t.startswith("Prompt[pid=")]
    begun = sum(1 for t in info if "--- BEGIN ---" in t)
    want = sum(1 for r in s.recs if r.run["mode"] == "prompt" and getattr(r, "cli", None) is not None)
    if begun != want:
        bad("session-records", f"{want} sessions, {begun} records of a beginning")
    sent = sum(1 for t in info if " send: [" in t and "[[EOF]]" not in t)
    ok = sum(1 for r in s.recs for h in r.history if h["op"][0] == "send" and h.get("exc") is None)
    if sent < ok:
        bad("session-records", f"{ok} texts were sent, {sent} records of sending")


def serve(forked):
    "The helper: executes without tracing."
    from . import sim as simmod
    import shellous.log
    assert not shellous.log.LOG_DETAIL
    fd_in, fd_out = sys.__stdin__.fileno(), sys.__stdout__.fileno()
    buf = b""
    while True:
        while b"\n" not in buf:
            d = _read(fd_in, 1 << 16)
            if not d:
                return 0
            buf += d
        line, _, buf = buf.partition(b"\n")
        spec, choices = json.loads(line)
        st, value = forked(lambda: summary(simmod.run_spec(spec, choices)))
        data = json.dumps([st, value]).encode() + b"\n"
        while data:
            data = data[_write(fd_out, data):]
