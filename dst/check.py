"""Seeded search for violations of one property.

    python -m dst.check run PROP        search (VERIF_SEED, VERIF_TIER)
    python -m dst.check replay FILE     re-execute a replay file
    python -m dst.check one PROP SEED   execute one seed and print what it did
    python -m dst.check selftest        determinism of the simulator itself

Exit 0: held on everything explored; 1: VIOLATION; 2: the check itself failed.
The parent process never imports the simulator or the code under test: every
worker does, freshly, from /repo's working tree.
"""

import codecs
import collections
import gc
import json
import multiprocessing as mp
import os
import pickle
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECHNIQUE = "deterministic simulation with fault injection (seeded search)"
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))

# Number of simulated executions and wall-clock limit (s) per tier.
QUICK = dict(runs=10000, wall=300)
THOROUGH = dict(runs=200000, wall=3000)
QUICK_RUNS = dict(C15=40000, C16=16000)

_wall = time.perf_counter      # (the simulator patches the time module in workers)


def seed_base():
    return int(os.environ.get("VERIF_SEED", "1")) * 10_000_000


# ------------------------------------------------------------------ workers
def _quiet():
    sys.unraisablehook = lambda *a: None


def _import(prop=None):
    "Everything that an execution needs, so that a forked process has it."
    import importlib
    from . import trace_oracle
    if prop in trace_oracle.TRACED:
        trace_oracle.start(HERE)
    for name in ("sim", "gen", "relevance", "scenario", "oracles", "prompt_oracle", "shrink", "fam_harvest", "fam_watcher",
                 "fam_reuse", "fam_values"):
        importlib.import_module("dst." + name)
    importlib.import_module("shellous.watcher")
    codecs.lookup("latin-1")
    gc.collect()
    gc.freeze()


# (the simulator patches os and signal once it runs)
_os = (os.fork, os.pipe, os.read, os.write, os.close, os.waitpid, os._exit, signal.alarm)


def forked(fn, *args, limit=150):
    """Run `fn` in a process of its own: ("ok", value) or ("err", traceback).

    No execution can see what another one left behind in the code under test
    (a cache in a module, a counter in a class), so a seed alone repeats it.
    """
    fork, pipe, read, write, close, waitpid, exit_, alarm = _os
    r, w = pipe()
    pid = fork()
    if pid == 0:
        try:
            alarm(limit)
            try:
                data = pickle.dumps(("ok", fn(*args)))
            except BaseException:
                data = pickle.dumps(("err", traceback.format_exc()[-1500:]))
            while data:
                data = data[write(w, data):]
        finally:
            exit_(0)
    close(w)
    parts = []
    while True:
        d = read(r, 1 << 16)
        if not d:
            break
        parts.append(d)
    close(r)
    waitpid(pid, 0)
    try:
        return pickle.loads(b"".join(parts))
    except Exception:
        return ("err", "the process of the execution ended early")


def run_one(prop, spec, choices=None):
    from . import sim as simmod, trace_oracle
    if prop in trace_oracle.TRACED:
        return trace_oracle.execute(spec, choices)
    return simmod.run_spec(spec, choices)


def _execute(prop, seed, want_sample):
    "One execution; returns only plain data."
    from . import gen, relevance, sim as simmod
    spec = gen.make_spec(prop, seed)
    s = run_one(prop, spec)
    k = s.k
    try:
        non = bool(relevance.nontrivial(prop, s))
    except Exception:
        non = False
    mine = [v for v in s.violations if prop in v.props]
    return dict(steps=k.steps, simtime=k.now - k.t0, fired=dict(k.fired), fp=simmod.fingerprint(s), non=non,
                hang=bool(s.hang), bad=[(seed, v.kind, v.detail[:600]) for v in mine[:3]],
                sample=sample(spec, s, seed) if want_sample and non and not mine else None)


def work(job):
    "Run a slice of seeds, each in a process of its own."
    prop, lo, hi, deadline = job
    _quiet()
    _import(prop)
    out = dict(n=0, non=0, steps=0, simtime=0.0, fired={}, hashes=[], bad=[], errors=[], hangs=0, sample=None)
    for seed in range(lo, hi):
        if _wall() > deadline:
            break
        st, x = forked(_execute, prop, seed, out["sample"] is None)
        out["n"] += 1
        if st != "ok":      # the simulator itself failed
            out["errors"].append((seed, x))
            continue
        out["steps"] += x["steps"]
        out["simtime"] += x["simtime"]
        for f, c in x["fired"].items():
            out["fired"][f] = out["fired"].get(f, 0) + c
        if x["non"]:
            out["non"] += 1
            out["hashes"].append(x["fp"][:16])
        out["hangs"] += x["hang"]
        out["bad"] += x["bad"]
        out["sample"] = out["sample"] or x["sample"]
    return out


def sample(spec, s, seed):
    k = s.k
    d = dict(seed=seed, steps=k.steps, simulated_s=round(k.now - k.t0, 4), injected=dict(k.fired),
             events=len(k.log), watcher=spec.get("loop", {}).get("watcher"))
    if spec.get("family", "run") == "run":
        d["runs"] = [dict(mode=r.run["mode"], commands=[c["prog"] for c in r.run["cmds"]],
                          outcome=(r.outcome or ("hang",))[0]) for r in s.recs]
    else:
        d["family"] = spec["family"]
        d["case"] = {a: b for a, b in spec.items() if a in ("case", "tasks", "ops", "n", "kids", "start")}
    d["first_events"] = [" ".join(str(x) for x in e) for e in k.log[:25]]
    return d


def matches(s, prop, kind):
    for v in s.violations:
        if v.kind == kind and prop in v.props:
            return v
    return None


def _attempt(spec, choices, prop, kind):
    "None, or what a replay document says about this execution."
    from . import sim as simmod
    t = run_one(prop, spec, choices)
    v = matches(t, prop, kind)
    if v is None:
        return None
    return dict(detail=v.detail[:2000], steps=t.k.steps, choices=t.k.ch.trimmed(), fingerprint=simmod.fingerprint(t),
                trace=[" ".join(str(x) for x in e) for e in t.k.log[-400:]])


def minimise(job):
    "Shrink one failing execution; returns the replay document."
    prop, seed, kind, limit = job
    _quiet()
    _import(prop)
    from . import gen, shrink
    spec = json.loads(json.dumps(gen.make_spec(prop, seed)))
    st, first = forked(_attempt, spec, None, prop, kind)
    if st != "ok" or first is None:
        raise RuntimeError(f"seed {seed} does not reproduce {kind}: {first}")
    end = _wall() + limit

    def test(sp, ch):
        if _wall() > end:
            return None
        st, t = forked(_attempt, sp, ch, prop, kind)
        return (t["steps"], t["choices"]) if st == "ok" and t else None

    spec, choices, tries = shrink.shrink(spec, first["choices"], test, lambda: _wall() > end)
    st, t = forked(_attempt, spec, choices, prop, kind)
    return dict(property=prop, kind=kind, detail=t["detail"], seed=seed, spec=spec, choices=t["choices"], steps=t["steps"],
                fingerprint=t["fingerprint"], shrink_attempts=tries, trace=t["trace"])


def _verify(path):
    "Replay in this (fresh) process: same violation, same execution."
    with open(path) as f:
        doc = json.load(f)
    _import(doc["property"])
    from . import sim as simmod
    s = run_one(doc["property"], doc["spec"], doc["choices"])
    v = matches(s, doc["property"], doc["kind"])
    return v is not None and simmod.fingerprint(s) == doc["fingerprint"], (v.detail if v else None)


def _child(fn, arg, q):
    try:
        q.put(("ok", fn(arg)))
    except BaseException:
        q.put(("err", traceback.format_exc()))


def isolated(fn, arg, timeout):
    "Run fn(arg) in a forked process of its own."
    ctx = mp.get_context("fork")
    q = ctx.SimpleQueue()
    p = ctx.Process(target=_child, args=(fn, arg, q))
    p.start()
    end = _wall() + timeout
    while q.empty():
        if _wall() > end or (not p.is_alive() and q.empty()):
            p.kill()
            p.join()
            return ("err", "no answer")
        time.sleep(0.02)
    r = q.get()
    p.join(5)
    if p.is_alive():
        p.kill()
    return r


# ------------------------------------------------------------------- search
def known_findings(prop):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        doc = json.load(f)
    return [x for x in doc.get("findings", []) if x["property"] == prop]


def is_known(findings, kind, detail):
    import re
    for f in findings:
        if f["kind"] == kind and re.search(f["match"], detail):
            return f
    return None


def run(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    conf = dict(THOROUGH if tier == "thorough" else QUICK)
    if tier != "thorough":
        conf["runs"] = QUICK_RUNS.get(prop, conf["runs"])
    if os.environ.get("VERIF_RUNS"):
        conf["runs"] = int(os.environ["VERIF_RUNS"])
    if os.environ.get("VERIF_WALL"):
        conf["wall"] = float(os.environ["VERIF_WALL"])
    start = _wall()
    deadline = start + conf["wall"]
    base = seed_base()
    step = 25
    jobs = [(prop, base + lo, base + min(lo + step, conf["runs"]), deadline) for lo in range(0, conf["runs"], step)]
    total = collections.Counter()
    fired = collections.Counter()
    hashes = set()
    simtime = 0.0
    bad = []
    errors = []
    samples = []
    findings = known_findings(prop)
    ctx = mp.get_context("fork")
    with ctx.Pool(WORKERS) as pool:
        res = pool.imap(work, jobs)
        got = 0
        stopped_at = None
        while True:
            try:
                o = res.next(timeout=max(1.0, deadline + 120 - _wall()))
            except StopIteration:
                break
            except mp.TimeoutError:
                errors.append((None, "a worker did not answer"))
                break
            got += 1
            for key in ("n", "non", "steps", "hangs"):
                total[key] += o[key]
            simtime += o["simtime"]
            fired.update(o["fired"])
            hashes.update(o["hashes"])
            bad += o["bad"]
            errors += o["errors"]
            if o["sample"] and len(samples) < 3:
                samples.append(o["sample"])
            if stopped_at is None and any(is_known(findings, b[1], b[2]) is None for b in bad):
                stopped_at = got
            # a few more slices make the choice of the smallest failure better
            if stopped_at is not None and got >= stopped_at + 2 * WORKERS:
                break
        pool.terminate()
    search_s = _wall() - start
    new = [b for b in bad if is_known(findings, b[1], b[2]) is None]
    for f in findings:
        print(f"KNOWN-FINDING: property={prop} {f['what']}", flush=True)
    violations = 0
    status = 0
    if new:
        status = report(prop, new)
        violations = len({(s, k) for s, k, d in new})
    for seed, tb in errors[:3]:
        print(f"SIMULATOR-ERROR property={prop} seed={seed}\n{tb}", file=sys.stderr, flush=True)
    if status == 0 and (total["n"] == 0 or len(errors) > max(2, total["n"] // 200)):
        print(f"{prop}: {len(errors)} of {total['n']} executions failed inside the simulator", file=sys.stderr)
        status = 2
    wall = _wall() - start
    evidence(prop, tier, conf, total, fired, hashes, simtime, samples, errors, violations, search_s, wall, findings)
    print(f"{prop}: {total['n']} simulated executions, {len(hashes)} distinct non-trivial, "
          f"{simtime:.0f} simulated s, {sum(fired.values())} faults injected, {violations} violations, {wall:.1f} s")
    return status


def report(prop, bad):
    kinds = collections.defaultdict(list)
    for seed, kind, detail in bad:
        kinds[kind].append((seed, detail))
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    order = sorted(kinds, key=lambda x: (-len(kinds[x]), x))
    for kind in order[:3]:
        seed, detail = kinds[kind][0]
        path = os.path.join(HERE, "replays", f"{prop}-{kind}-{seed}.json")
        st, doc = isolated(minimise, (prop, seed, kind, 45.0), 200)
        if st != "ok":
            print(f"minimising {kind} seed {seed}: {doc}", file=sys.stderr)
            continue
        with open(path, "w") as f:
            json.dump(doc, f, indent=1)
        st, ok = isolated(_verify, path, 100)
        if st != "ok" or not ok[0]:
            print(f"replay of {path} differs: {st} {ok}", file=sys.stderr)
            continue
        print(f"{kind}: {doc['detail'][:500]}")
        print(f"  found with seed {seed} ({len(kinds[kind])} of the failing executions); {doc['steps']} steps after "
              f"{doc['shrink_attempts']} shrinking attempts")
        print(f"VIOLATION property={prop} replay={path}", flush=True)
        return 1
    print("violations were seen but none could be replayed", file=sys.stderr)
    return 2


def evidence(prop, tier, conf, total, fired, hashes, simtime, samples, errors, violations, search_s, wall, findings):
    import importlib
    rel = importlib.import_module("dst.relevance")
    doc = dict(
        property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="exploration",
        coverage=dict(
            evaluations=total["n"],
            distinct_nontrivial=len(hashes),
            rule="One case is one complete simulated execution: a generated scenario (commands, redirections, "
                 "options, child programs, user actions, fault plan) run under one seeded schedule. Two executions "
                 "are distinct when their complete event logs (every simulated system call, signal, exit, callback "
                 "with its arguments and virtual time) differ. Non-trivial for this property: " + rel.RULES[prop] + ".",
            nontrivial_executions=total["non"],
            samples=samples or [dict(note="no non-trivial execution")],
            executions_per_hour=round(total["n"] / max(search_s, 0.001) * 3600),
            simulated_seconds=round(simtime, 3),
            scheduling_steps=total["steps"],
            executions_ended_by_a_hang=total["hangs"],
            faults_injected=dict(sorted(fired.items())),
            fault_kinds=len(fired),
            interleaving_measure="distinct complete event logs",
            distinct_interleavings=len(hashes),
            simulator_errors=len(errors),
            known_findings=[f["what"] for f in findings],
            real_components=["shellous (all modules, from /repo's working tree)", "asyncio streams, subprocess "
                             "protocols, transports, tasks and event loop logic", "subprocess.Popen", "pty/tty modules"],
            stub_components=["operating system: processes, signals, wait status, pipes, files, terminals, epoll, "
                             "pidfd (in-memory model)", "child programs (scripted)", "threads (one at a time, seeded)",
                             "clock (virtual)", "C fork_exec (modelled)"],
        ),
        assumptions=["the kernel model reproduces Linux semantics for the calls used",
                     "CPython 3.12 asyncio; uvloop and non-Linux code paths are not executed"],
        wall_s=round(wall, 2), violations=violations)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(doc, f, indent=1, default=str)
    os.replace(path + ".tmp", path)


def replay(path):
    with open(path) as f:
        doc = json.load(f)
    _quiet()
    _import(doc["property"])
    from . import sim as simmod
    s = run_one(doc["property"], doc["spec"], doc["choices"])
    for e in s.k.log:
        print(" ".join(str(x) for x in e), file=sys.__stdout__)
    same = simmod.fingerprint(s) == doc["fingerprint"]
    v = matches(s, doc["property"], doc["kind"])
    print(f"execution identical to the recorded one: {same}", file=sys.__stdout__)
    if v:
        print(f"{v.kind}: {v.detail}\nVIOLATION property={doc['property']} replay={path}", file=sys.__stdout__)
        return 1
    print("the violation does not occur", file=sys.__stdout__)
    return 0


def _fps(job):
    prop, seeds = job
    _quiet()
    _import(prop)
    return [(prop, seed, forked(_execute, prop, seed, False)[1]["fp"]) for seed in seeds]


def selftest(n=40):
    "Every execution must depend on its seed only: other order, other worker, replayed choices."
    props = [p for p in PROPS]
    ctx = mp.get_context("fork")
    base = seed_base()
    a = [(p, list(range(base, base + n))) for p in props]
    b = [(p, list(range(base + n - 1, base - 1, -3)) + list(range(base + n - 2, base - 1, -3))
          + list(range(base + n - 3, base - 1, -3))) for p in reversed(props)]
    with ctx.Pool(WORKERS, maxtasksperchild=1) as pool:
        ra = {x[:2]: x[2] for r in pool.map(_fps, a, 1) for x in r}
    rb = {}
    # (tracing is switched on for a whole process)
    for part in ([x for x in b if x[0] in TRACED], [x for x in b if x[0] not in TRACED]):
        with ctx.Pool(max(1, WORKERS - 3)) as pool:
            rb.update({x[:2]: x[2] for r in pool.map(_fps, part, 1) for x in r})
    diff = [key for key in ra if ra[key] != rb.get(key)]
    print(f"selftest: {len(ra)} executions repeated, {len(diff)} differ {diff[:5]}")
    return 1 if diff else 0


TRACED = ("C27",)
PROPS = [f"C{i:02d}" for i in range(1, 28)]


def main(argv):
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, "-B", "-m", "dst.check"] + argv)
    if argv[0] == "run":
        return run(argv[1])
    if argv[0] == "replay":
        return replay(argv[1])
    if argv[0] == "peer":
        from . import trace_oracle
        _quiet()
        _import()
        return trace_oracle.serve(forked)
    if argv[0] == "selftest":
        return selftest(int(argv[1]) if len(argv) > 1 else 40)
    raise SystemExit("usage: dst.check run PROP | replay FILE | selftest")


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
