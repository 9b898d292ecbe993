"""When is a run non-trivial for a property?  (Evidence only; never an oracle.)"""

RULES = {
    "C01": "a process was started and its run did not end by a plain success",
    "C02": "the library created at least 4 descriptors",
    "C03": "a command wrote at least one byte to a sink that was checked",
    "C04": "a command read at least one byte of supplied input",
    "C05": "a result or ResultError was reported for a reaped process",
    "C06": "the library sent a signal to a running process",
    "C07": "a run had a timeout (its own or an enclosing one)",
    "C08": "a pipeline of two or more processes moved at least one byte between them",
    "C09": "a pipeline was cancelled, timed out, or had a member that failed",
    "C10": "a process substitution was started",
    "C11": "an expect() of a session returned a match or timed out on pending text",
    "C12": "a prompt session met a timeout, end of file, cancellation, close or exception",
    "C13": "an asynchronous iteration delivered at least one line",
    "C14": "at least two audit callbacks were received",
    "C15": "at least one awaitable was still pending when harvesting ended or was interrupted",
    "C16": "at least one child was registered with the watcher and exited",
    "C17": "a pseudo-terminal was opened",
    "C18": "the same command object was run at least twice",
    "C19": "at least two runs overlapped in time",
    "C20": "the launch of a command failed",
    "C21": "a run ended by cancellation, timeout or exception",
    "C22": "more bytes went through a pipe or terminal than it can hold",
    "C23": "a command was run and its arguments and environment were recorded at exec",
    "C24": "at least four operations were applied to commands that others shared",
    "C25": "the handle of a run was looked at or used in its block",
    "C26": "a task was added to a run",
    "C27": "a process was started while tracing was switched on",
}


def nontrivial(prop, sim):
    if sim.spec.get("family", "run") != "run":
        return sim.family.nontrivial(sim)
    k = sim.k
    recs = sim.recs
    procs = [p for p in k.all_procs if not p.user]
    bad_end = any(r.outcome is None or r.outcome[0] != "ok" for r in recs)
    if prop == "C27":
        return bool(procs)
    if prop == "C01":
        return bool(procs) and bad_end
    if prop == "C02":
        return sum(1 for e in k.log if e[0] in ("pipe", "open", "openpty")) >= 2
    if prop in ("C03", "C08", "C22"):
        n = [len(d) for p in procs for _, _, d in p.wlog]
        if prop == "C03":
            return sum(n) > 0
        multi = any(len(r.members) > 1 for r in recs)
        if prop == "C08":
            return multi and sum(n) > 0
        cap = k.cfg["cap"]
        return sum(n) > (min(cap) if isinstance(cap, (list, tuple)) else cap)
    if prop == "C04":
        return any(p.read.values() and any(len(v) for v in p.read.values()) for p in procs)
    if prop == "C05":
        return any(p.state == "reaped" for p in procs)
    if prop == "C06":
        return any(who.startswith("lib") for p in procs for _, _, who in p.sigs)
    if prop == "C07":
        return any(r.run.get("wrap") or any(c.spec["opts"].get("timeout") for c in r.cmds) for r in recs)
    if prop == "C09":
        return any(len(r.members) > 1 for r in recs) and bad_end
    if prop == "C10":
        return any(c.role[0] == "sub" and c.procs for r in recs for c in r.cmds)
    if prop == "C11":
        return any("match" in h or "out" in h for r in recs for h in r.history)
    if prop == "C12":
        return any("exc" in h or h["op"][0] == "close" for r in recs for h in r.history)
    if prop == "C13":
        return any(r.lines for r in recs)
    if prop == "C14":
        return sum(len(c.audit) for r in recs for c in r.cmds) >= 2
    if prop == "C17":
        return any(e[0] == "openpty" for e in k.log)
    if prop == "C26":
        return any(r.helpers for r in recs)
    if prop == "C25":
        return any(r.looks for r in recs)
    if prop == "C19":
        return len(recs) > 1 and sim.spec.get("conc") == "gather"
    if prop == "C20":
        return any(a["failure"] for r in recs for c in r.cmds for a in c.audit) or any(
            r.outcome is not None and r.outcome[0] == "exc" for r in recs)
    return bad_end
