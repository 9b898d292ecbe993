"""Writes MANIFEST.json from the claimed properties (dst.check.PROPS)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from dst.check import PROPS
NA = {}
LATER = "A check is planned but not built yet."
NOTE = ("Seeded search in a deterministic simulator that runs the real shellous and asyncio code over an in-memory model of the "
        "operating system (processes, signals, pipes, terminals, files, epoll/pidfd, threads, virtual clock) with injected faults; "
        "thousands of schedules per run, evidence rather than proof. Trusts the OS model (kernel.py, child.py), the oracle of the "
        "property and CPython's asyncio. ")
EXTRA = {
    "C07": "One recorded finding (timeout expiring in the body of async for) is excluded by kind. ",
    "C15": "Drives harvest/harvest_results directly with generated tasks on the simulated loop. ",
    "C16": "Drives DefaultChildWatcher with simulated threads, preempted at every source line of watcher.py by the seed. ",
    "C18": "Runs shared command and pipeline objects in many tasks at once, nested and in every form, some of them failing or cancelled; each process names itself, so that every output, result and exit status is traced to its own run. ",
    "C23": "Tasks derive commands from each other and run them at the same time while the inherited environment changes; what each process got is read from its exec call. ",
    "C24": "Tasks derive commands and pipelines from each other while others run; a model of every value, and values made anew by the same calls, are compared with them after every step. ",
}
allp = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
doc = dict(
    version=1,
    setup_cmd="bin/setup",
    checks=[dict(property=p, quick_cmd=f"VERIF_TIER=quick bin/check {p}", thorough_cmd=f"VERIF_TIER=thorough bin/check {p}",
                 technique="deterministic simulation with fault injection (seeded search over schedules and fault plans)",
                 level="exploration", level_note=(NOTE + EXTRA.get(p, "")).strip()) for p in PROPS],
    not_applicable=[dict(property=p, reason=NA.get(p, LATER)) for p in allp if p not in PROPS],
    notes="No hooks in /repo were needed: the seams are the os/select/threading/subprocess/time modules and the event loop, "
          "which the simulator replaces in its own process. /repo carries 'fix:' commits for genuine defects found (known_findings.json).",
)
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
