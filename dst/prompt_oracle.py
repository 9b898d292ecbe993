"""C11 and C12: what a prompt session may return, and when."""

import codecs
import io
import re

from shellous import Result

EPS = 0.02


class Text:
    "The decoded output of the co-process, with arrival times."

    def __init__(self, judge, cr, normalize):
        p = cr.proc
        self.pty = judge.opt(cr, "pty")
        self.ok = True
        if self.pty:
            pty = judge.pty_of(cr)
            if pty is None:
                self.raw = b""
                self.times = []
                self.ok = False
            else:
                self.raw = bytes(pty.olog)
                self.times = list(pty.otimes)
        else:
            fds = {1, 2} if cr.err.kind == "stdout" else {1}
            parts = []
            self.times = []
            n = 0
            for t, fd, d in p.wlog:
                if fd in fds:
                    parts.append(d)
                    n += len(d)
                    self.times.append((t, n))
            self.raw = b"".join(parts)
        enc = judge.opt(cr, "encoding", "utf-8").split()
        self.enc = enc[0]
        self.cut = False    # ends inside a character
        self.points = []    # (time, number of characters known by then)
        dec = codecs.getincrementaldecoder(enc[0])(*enc[1:])
        if normalize:
            dec = io.IncrementalNewlineDecoder(dec, translate=True)
        parts = []
        done = chars = 0
        try:
            for t, total in self.times:
                s = dec.decode(self.raw[done:total])
                done = total
                if s:
                    parts.append(s)
                    chars += len(s)
                    self.points.append((t, chars))
            self.cut = bool(dec.getstate()[0].strip(b"\r")) and len(enc) == 1
            if self.cut:
                pass        # reading the end fails
            elif p.exit_time is not None:
                s = dec.decode(b"", final=True)
                if s:
                    parts.append(s)
                    self.points.append((p.exit_time, chars + len(s)))
        except UnicodeDecodeError:
            self.ok = False
        self.text = "".join(parts)

    def arrival(self, end):
        "When had the first `end` characters arrived?"
        if end <= 0:
            return 0.0
        for t, chars in self.points:
            if chars >= end:
                return t
        return None


def find(text, pat, q):
    "(start, end) of the match that expect must return, or None."
    if isinstance(pat, str):
        i = text.find(pat, q)
        return None if i < 0 else (i, i + len(pat))
    if pat[0] == "list":
        best = None
        for s in pat[1]:
            i = text.find(s, q)
            if i >= 0 and (best is None or i < best[0]):
                best = (i, i + len(s))
        return best
    m = re.compile(pat[1], re.DOTALL).search(text, q)
    return None if m is None else m.span()


def echo_off(j, rec):
    "Sends that wait until the terminal does not echo."
    p = rec.members[0].proc
    pty = p.ctty if p is not None and len(rec.members) == 1 else None
    for i, h in enumerate(rec.history):
        op, name, exc = h["op"], h["op"][0], h.get("exc")
        if name in ("echo", "getecho") and exc is None:
            want = op[1] if name == "echo" else h["out"]
            if h["real"] != want and len(rec.members) == 1:
                j.bad(["C17"], "terminal-echo", f"{op}: {h.get('out')}, the terminal's echo is {h['real']}")
        if name not in ("send", "command") or len(op) < 3 or not op[2].get("no_echo"):
            continue
        text = op[1].encode("utf-8")
        if exc == "RuntimeError" and not j.errs:
            if pty is None:
                j.bad(["C17"], "no-echo-refused", f"{op}: {h.get('ex')!r} although there is no terminal")
            elif h["t1"] - h["t0"] < 30.0 - EPS:
                j.bad(["C17"], "no-echo-refused", f"{op}: {h.get('ex')!r} after {h['t1'] - h['t0']:.3f} s")
        if exc is None and pty is not None and len(text) >= 5 and text in pty.shown and not any(
                x["op"][0] == "echo" and x["op"][1] for x in rec.history[i + 1:]) and not any(
                x is not h and len(x["op"]) > 1 and op[1] in str(x["op"][1]) for x in rec.history):
            j.bad(["C17"], "no-echo-shown", f"{op}: the terminal echoed it")


def too_late(j, op, kw, t0, t1):
    "The timeout of an operation that took longer than its timeout."
    name = op[0]
    arg = op[2] if len(op) > 2 and isinstance(op[2], dict) else {}
    if name == "expect":
        T = op[2] if len(op) > 2 and op[2] is not None else kw.get("timeout")
    elif name == "readall":
        T = op[1] if len(op) > 1 and op[1] is not None else kw.get("timeout")
    elif name in ("send", "command"):
        T = arg.get("timeout") or kw.get("timeout")
    else:
        return None
    if T is None:
        return None
    lim = T * (2 if name == "command" else 1)
    if arg.get("no_echo"):
        lim += 30.25    # it waits for the terminal's echo to be switched off first
    return T if t1 - t0 > lim + j.slack(t0 + T) + j.stall(t0, t1) + EPS else None


def judge(j, rec):
    kw = rec.run.get("promptkw", {})
    last = rec.members[-1]
    # (A substitution that fails ends its command of a pipeline.)
    cut = j.errs or len(rec.members) > 1 and any(
        c.proc is None or c.proc.exit_code != 0 for c in rec.cmds if c.role[0] == "sub")
    if rec.last_resort and rec.unread:
        return      # it still has output that nobody reads
    if rec.last_resort and any(any(p.exit_time is None or p.exit_time > rec.cancels[0] - EPS for p in c.procs)
                               for c in rec.cmds if c.role[0] == "sub"):
        return      # a substitution was still running
    if rec.last_resort and not j.errs and j.stall(rec.start, rec.end) < 20:
        j.bad(["C12"], "prompt-hang", f"session still open after 300 s; history {[h['op'] for h in rec.history][-3:]}")
        return
    if rec.cli is None or last.proc is None or len(last.procs) != 1 or j.has_fork(last):
        return
    echo_off(j, rec)
    D = Text(j, last, bool(kw.get("normalize_newlines")))
    if not D.ok:
        return
    text = D.text
    p = last.proc
    q = 0
    default = kw.get("prompt")
    eof_t = p.exit_time
    sent = bytearray()
    clean = True
    end = len(text)
    seen = False
    ended = ["close", 1] in j.ops(last)
    for h in rec.history:
        op = h["op"]
        name = op[0]
        t0, t1 = h["t0"], h["t1"]
        exc = h.get("exc")
        if text[q:q + len(h["pend0"])] != h["pend0"]:
            j.bad(["C11"], "prompt-pending", f"before {op}: pending {h['pend0'][:40]!r} is not what follows ({text[q:q + 40]!r})")
            return
        if exc == "UnicodeDecodeError":
            if not D.cut:
                j.bad(["C11"], "prompt-decode", f"{op}: {h.get('ex')!r}")
            return
        if name == "command" and exc != "EOFError" and (h["eof0"] or seen):
            j.bad(["C11"], "prompt-command-eof", f"{op}: {exc}, but the end of the output was read before")
            return
        seen = seen or exc == "EOFError" or h["eof1"]
        late = too_late(j, op, kw, t0, t1)
        if late:
            j.bad(["C12"], "prompt-timeout-late" if exc == "TimeoutError" else "prompt-timeout-missed", f"{op}: {exc} after {t1 - t0:.5f}s (timeout {late})")
        if exc == "cancel/raise":
            # interrupted by the user: nothing may be lost
            if name in ("send", "command"):
                clean = False
            if name not in ("raise", "command") and not text[q:].startswith(h["pend1"]):
                j.bad(["C11"], "prompt-text-lost", f"{op} was cancelled: pending {h['pend1'][:40]!r}, expected {text[q:q + 40]!r}")
            break
        if exc not in (None, "TimeoutError", "EOFError") and name not in ("send", "command"):
            if not j.errs and not (name in ("echo", "getecho")):
                j.bad(["C11", "C12"], "prompt-error", f"{op}: {exc} {h.get('ex')!r}"[:300])
            return
        if D.cut and h["eof1"] and not h["eof0"] and exc in (None, "EOFError") and name in ("expect", "command", "readall") and not j.errs:
            j.bad(["C11"], "prompt-decode-lost", f"{op}: {exc}, although the output ends inside a character")
            return
        pat = T = None
        if name in ("expect", "uexpect"):
            pat = op[1] if op[1] is not None else default
            T = op[2] if len(op) > 2 and op[2] is not None else kw.get("timeout")
            if name == "uexpect":
                T = min(T, kw.get("timeout") or T)
        elif name == "command":
            ckw = op[2] if len(op) > 2 else {}
            pat = ckw.get("prompt", default)
            T = ckw.get("timeout") or kw.get("timeout")
        elif name == "send":
            skw = op[2] if len(op) > 2 else {}
            T = skw.get("timeout") or kw.get("timeout")
        elif name == "readall":
            T = op[1] if len(op) > 1 and op[1] is not None else kw.get("timeout")
        # ---- what was sent
        if name in ("send", "command"):
            e = (op[2] if len(op) > 2 else {}).get("end", "\n")
            data = (op[1] + (e or "")).encode(D.enc)
            if exc in (None, "TimeoutError") or name == "command" and exc == "EOFError":
                sent += data
                if exc == "EOFError":
                    clean = False
            else:
                clean = False
                if exc not in ("BrokenPipeError", "ConnectionResetError", "RuntimeError") and not j.errs:
                    j.bad(["C11", "C12"], "prompt-error", f"{op}: {exc} {h.get('ex')!r}"[:300])
                if exc == "RuntimeError" and "no_echo" not in (op[2] if len(op) > 2 else {}):
                    j.bad(["C11", "C12"], "prompt-error", f"{op}: {exc} {h.get('ex')!r}"[:300])
                if exc != "RuntimeError":
                    sent += data
        # ---- what was returned
        if exc is None and "out" not in h and name in ("expect", "uexpect", "command", "readall", "pending"):
            return
        if name in ("expect", "uexpect", "command") and exc is None:
            want = find(text, pat, q)
            out = h["out"]
            if want is None and name == "command" and op[2].get("allow_eof"):
                # the rest of the output instead
                if out != text[q:] and not (cut and text[q:].startswith(out)):
                    j.bad(["C11"], "prompt-text", f"{op}: {diff(out, text[q:])}")
                    return
                q += len(out)
                ended = True
                if not h["eof1"] and not j.errs:
                    j.bad(["C11"], "prompt-match", f"{op}: returned before the end of the output")
                continue
            if want is None:
                j.bad(["C11"], "prompt-match", f"{op}: returned {out[:40]!r}, but there is no match")
                return
            s, e = want
            if out != text[q:s]:
                j.bad(["C11"], "prompt-text", f"{op}: {diff(out, text[q:s])}")
                return
            if name != "command":
                m = h["match"]
                if not (m == text[s:e] or (isinstance(pat, list) and pat[0] == "re" and text[s:e].startswith(m))):
                    j.bad(["C11"], "prompt-match", f"{op}: matched {m!r}, expected {text[s:e]!r}")
                    return
                e = s + len(m)
            q = e
            if name == "expect" or name == "uexpect":
                arr = D.arrival(e)
                if arr is not None:
                    due = max(t0, arr)
                    if t1 > due + j.slack(due) + EPS:
                        j.bad(["C12"], "prompt-late-match", f"{op}: match arrived at {due - j.k.t0:.4f}, returned at {t1 - j.k.t0:.4f}")
        elif name == "readall" and exc is None:
            if h["out"] != text[q:] and not (cut and text[q:].startswith(h["out"])):
                j.bad(["C11"], "prompt-read-all", diff(h["out"], text[q:]))
                return
            q += len(h["out"])
            if eof_t is not None:
                due = max(t0, eof_t)
                if t1 > due + j.slack(due) + EPS:
                    j.bad(["C12"], "prompt-late-eof", f"{op}: output ended at {due - j.k.t0:.4f}, returned at {t1 - j.k.t0:.4f}")
        elif name == "pending":
            if h["out"] != h["pend0"]:
                j.bad(["C11"], "prompt-read-pending", diff(h["out"], h["pend0"]))
                return
            q += len(h["out"])
        elif exc == "EOFError" and name in ("expect", "uexpect", "command"):
            if name == "command" and eof_t is not None and eof_t <= t0:
                pass    # documented: nothing is sent, whatever is pending
            elif find(text, pat, q) is not None and not cut:
                j.bad(["C11", "C12"], "prompt-eof-match", f"{op}: EOFError, but the text contains a match")
            elif h["pend1"] != text[q:] and not cut:
                j.bad(["C11"], "prompt-eof-text", diff(h["pend1"], text[q:]))
            if name == "command" and op[2].get("allow_eof") and (eof_t is None or eof_t > t0) and not ended and not j.errs:
                j.bad(["C11"], "prompt-allow-eof", f"{op}: EOFError, although the end of the output is allowed")
            if eof_t is not None:
                due = max(t0, eof_t)
                if t1 > due + j.slack(due) + EPS and name != "command":
                    j.bad(["C12"], "prompt-late-eof", f"{op}: output ended at {due - j.k.t0:.4f}, raised at {t1 - j.k.t0:.4f}")
        elif exc == "EOFError":
            j.bad(["C12"], "prompt-error", f"{op}: EOFError")
        ended = ended or exc == "EOFError" or h["eof1"]
        # ---- timeouts
        if exc == "TimeoutError":
            if T is None:
                j.bad(["C12"], "prompt-timeout-none", f"{op}: TimeoutError without a timeout")
                return
            if t1 - t0 < T - EPS / 4:
                j.bad(["C12"], "prompt-timeout-early", f"{op}: TimeoutError after {t1 - t0:.5f}s")
            quiet = EPS * 2 + 2 * j.stall(t0 - 0.1, t1)
            if name in ("expect", "uexpect"):
                want = find(text, pat, q)
                if want is not None:
                    arr = D.arrival(want[1])
                    if arr is not None and max(arr, t0) + quiet < t0 + T:
                        j.bad(["C12"], "prompt-timeout-match", f"{op}: match arrived at {arr - j.k.t0:.4f}, timed out at {t1 - j.k.t0:.4f}")
                elif eof_t is not None and max(eof_t, t0) + quiet < t0 + T:
                    j.bad(["C12"], "prompt-timeout-eof", f"{op}: output ended at {eof_t - j.k.t0:.4f}, timed out at {t1 - j.k.t0:.4f}")
            elif name == "readall" and eof_t is not None and max(eof_t, t0) + quiet < t0 + T:
                j.bad(["C12"], "prompt-timeout-eof", f"{op}: output ended at {eof_t - j.k.t0:.4f}, timed out at {t1 - j.k.t0:.4f}")
            elif name == "send":
                for pid, since in h.get("wblock", ()):
                    if max(since, t0) + quiet < t1:
                        j.bad(["C12", "C22"], "prompt-send-deadlock",
                              f"{op[:1]}: the co-process has been blocked writing since {since - j.k.t0:.4f}, send timed out at {t1 - j.k.t0:.4f}")
                        break
        # ---- what is left
        if not text[q:].startswith(h["pend1"]):
            j.bad(["C11"], "prompt-text-lost", f"after {op} ({exc}): pending {h['pend1'][:40]!r}, expected {text[q:q + 40]!r}")
            return
        if h["eof1"] and q != end and not cut:
            j.bad(["C11"], "prompt-eof-flag", f"after {op}: at_eof, but {end - q} characters were never returned")
            return
    # ---- the other direction
    first = rec.members[0]
    if first.proc is not None and len(first.procs) == 1 and not j.errs and not j.has_fork(first):
        got = bytes(first.proc.read.get(0, b""))
        want = bytes(sent)
        pty = j.opt(first, "pty")
        if pty and any(len(x) > 3900 for x in want.split(b"\n")):
            pass
        elif clean and not want.startswith(got):
            j.bad(["C11"], "prompt-sent", diff(got, want))
        elif clean and not pty and 0 in first.proc.eof and got != want and rec.outcome[0] == "ok" and not rec.cancels:
            if not any(who.startswith("lib") and t <= first.proc.eof[0] for t, s, who in first.proc.sigs):
                j.bad(["C11"], "prompt-sent-truncated", diff(got, want))
    if rec.outcome[0] == "ok" and not isinstance(rec.outcome[1], Result):
        j.bad(["C12"], "prompt-no-result", repr(rec.outcome[1])[:100])


def diff(got, exp):
    n = min(len(got), len(exp))
    i = 0
    while i < n and got[i] == exp[i]:
        i += 1
    return f"got {len(got)}, expected {len(exp)}, first difference at {i}: {got[i:i + 20]!r} / {exp[i:i + 20]!r}"
