"""Minimises a failing execution: first the scenario, then the recorded choices."""

import copy
import time

_wall = time.perf_counter


def _lists(node, path=()):
    "Paths of all lists inside the scenario whose elements can be dropped."
    if isinstance(node, dict):
        for key in node:
            yield from _lists(node[key], path + (key,))
    elif isinstance(node, list):
        yield path
        for i, x in enumerate(node):
            yield from _lists(x, path + (i,))


def _dicts(node, path=()):
    if isinstance(node, dict):
        yield path
        for key in node:
            yield from _dicts(node[key], path + (key,))
    elif isinstance(node, list):
        for i, x in enumerate(node):
            yield from _dicts(x, path + (i,))


def _get(node, path):
    for p in path:
        node = node[p]
    return node


DROP_KEYS = ("actions", "body", "ops", "faults", "files", "runs", "args", "cmds", "calls", "aws", "cancels", "steps",
             "phases", "kids", "plan")
FAM_OPTIONAL = ("timeout", "cancel_timeout", "return_when", "cancel_finish", "wrap", "gap", "cleanup", "ignore", "stubborn",
                "delay", "life", "late", "kill", "stay", "close_loops", "trap", "dstate")
OPTIONAL = ("delay", "wrap", "iter", "selfcancel", "result", "stdin", "stdout", "stderr", "pipe_op", "audit_raise", "right", "onpipe", "viactx")
ZERO_CFG = ("short_read", "short_write", "eagain", "child_delay", "stall", "world", "sys_world", "preempt", "thread_switch")


def candidates(spec):
    "Smaller variants of the scenario, boldest first."
    runs = spec.get("runs")
    if isinstance(runs, list) and len(runs) > 1:
        for i in range(len(runs)):
            c = copy.deepcopy(spec)
            del c["runs"][i]
            yield c
    paths = [p for p in _lists(spec) if p and p[-1] in DROP_KEYS and p[-1] not in ("runs",)]
    for p in paths:
        lst = _get(spec, p)
        if p[-1] in ("cmds", "aws", "phases") and len(lst) <= 1:
            continue
        n = len(lst)
        if n > 2:
            for lo, hi in ((0, n // 2), (n // 2, n)):
                c = copy.deepcopy(spec)
                del _get(c, p)[lo:hi]
                yield c
        for i in range(n):
            c = copy.deepcopy(spec)
            del _get(c, p)[i]
            yield c
    if isinstance(runs, list):
        for i, run in enumerate(runs):
            for key in OPTIONAL:
                if key in run:
                    c = copy.deepcopy(spec)
                    del c["runs"][i][key]
                    yield c
            for j, cmd in enumerate(run["cmds"]):
                for key in OPTIONAL:
                    if key in cmd:
                        c = copy.deepcopy(spec)
                        del c["runs"][i]["cmds"][j][key]
                        yield c
                for key in list(cmd["opts"]):
                    c = copy.deepcopy(spec)
                    del c["runs"][i]["cmds"][j]["opts"][key]
                    yield c
    if spec.get("family", "run") in ("harvest", "watcher", "reuse", "values"):
        for p in list(_dicts(spec)):
            for key in FAM_OPTIONAL:
                if key in _get(spec, p):
                    c = copy.deepcopy(spec)
                    del _get(c, p)[key]
                    yield c
    cfg = spec.get("kcfg", {})
    for key in ZERO_CFG:
        if cfg.get(key):
            c = copy.deepcopy(spec)
            c["kcfg"][key] = 0
            yield c


def shrink(spec, choices, test, late):
    tries = 0
    best = test(spec, choices)
    if best is None:
        # (the recorded choices always replay; only a time limit gets here)
        return spec, choices, tries
    size = best[0]
    progress = True
    while progress and not late():
        progress = False
        for c in candidates(spec):
            if late():
                break
            ok = None
            for ch in (choices, {}, None):
                tries += 1
                t = test(c, ch)
                if t is not None and t[0] <= size * 1.5:
                    ok = t
                    break
            if ok is not None:
                spec, choices, size = c, ok[1], ok[0]
                progress = True
                break
    # choices: whole streams, then halves, then single values
    for name in sorted(choices, key=lambda s: -len(choices[s])):
        if late():
            break
        c = dict(choices)
        if c.pop(name, None) is None:
            continue
        tries += 1
        t = test(spec, c)
        if t is not None:
            choices = t[1]
    for name in sorted(choices):
        vals = choices.get(name)
        if vals is None:
            continue
        n = len(vals)
        seg = n
        while seg >= 1 and not late():
            i = 0
            while i < len(vals) and not late():
                if any(vals[i:i + seg]):
                    c = dict(choices)
                    c[name] = vals[:i] + [0] * len(vals[i:i + seg]) + vals[i + seg:]
                    tries += 1
                    if test(spec, c) is not None:
                        choices = c
                        vals = c[name]
                i += seg
            seg //= 2
            if n // max(seg, 1) > 64:
                break
    return spec, choices, tries
