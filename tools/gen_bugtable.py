"Rewrite the table of planted bugs in DESIGN.md (section 5) from seeded/."
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "## 5. Planted bugs\n"
ALSO = {   # other checks whose quick-sized sweep also reported the bug, where that was measured
    "c01-second-cancel": "C06 C09 C18 C20 C25", "c02-cancel-before-exec": "C10 C20", "c03-stringio-decode": "C18",
    "c04-reader-lines": "C03 C13 C19 C22", "c05-exit-128": "C08 C25", "c06-one-signal": "C07",
}

text = open(f"{ROOT}/DESIGN.md").read()
rows = []
for name in sorted(os.listdir(f"{ROOT}/seeded")):
    m = json.load(open(f"{ROOT}/seeded/{name}/meta.json"))
    rows.append(f"| {name} | {m['property']} {ALSO.get(name, '')} | {m['needs']} | {m['what_it_breaks']} |".replace("  ", " "))
head = text[:text.index(MARK)]
open(f"{ROOT}/DESIGN.md", "w").write(head + MARK + """
Each of them passes the repository's tests, and its demonstration fails with it and passes without it (confirmed when it was made, and again
for the ones that needed a refresh after a fix). Every one is caught by the quick check of the property named first (seed 1); the
other properties named are checks whose sweeps were seen to report it too (measured for some of the bugs only).

| bug | caught by | needs | effect |
|---|---|---|---|
""" + "\n".join(rows) + """

Changes the checks missed at first, and what was strengthened: bugs planted by hand and many hundred mutants of the library
(operators, operands, conditions, keyword arguments, statements) were run against the checks; those that survived and were not equivalent led to
more generation (member timeouts, several loops, shutdown, BaseException, sessions reused, value derivations, debug mode) or to new oracles
(descriptor audit at every close, who sent which signal, time bounds around each wait, prompt timeouts that do not fire, statuses members must not have).
What still survives: code that only matters on other platforms or Python versions, log texts, `repr`s, and messages of exceptions.
""")
