"""C23, C24: what a command is, while it is configured, shared and run.

Tasks derive commands, contexts and pipelines from each other and run them, at the
same time, with failing launches and cancellations, while the environment of the
program changes.  Three references: every value is rebuilt from the history of the
calls that made it (it must be equal, with the same hash, at any later time); a
model decides which values are equal; and the kernel's record of each exec tells
which arguments, environment and input the process really had.
"""

import asyncio
import collections
import contextvars
import decimal
import fractions
import io
import ipaddress
import os
import pathlib
import random
import uuid

from shellous import ResultError, sh

_OWNER = contextvars.ContextVar("owner", default=None)
BASE_ENV = ("SIM_A", "SIM_B", "SIM_C", "SIM_D")


class Thing:
    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text


def coerce_dict(arg):
    if isinstance(arg, dict):
        return [f"--{k}={v}" for k, v in arg.items()]
    return arg


def coerce_none(arg):
    return ["-n", "0"] if arg is None else arg


COERCE = {"dict": coerce_dict, "none": coerce_none}


# ------------------------------------------------------------------ arguments
class Unsupported(Exception):
    pass


def arg_value(a):
    "The Python object that the specification stands for."
    kind, v = a[0], a[1]
    return {
        "s": lambda: v,
        "b": lambda: v.encode("latin-1"),
        "i": lambda: v,
        "f": lambda: float(v),
        "bool": lambda: bool(v),
        "path": lambda: pathlib.Path(v),
        "pure": lambda: pathlib.PurePosixPath(v),
        "ba": lambda: bytearray(v.encode("latin-1")),
        "mv": lambda: memoryview(v.encode("latin-1")),
        "sio": lambda: _seek(io.StringIO(v)),
        "bio": lambda: _seek(io.BytesIO(v.encode("latin-1"))),
        "l": lambda: [arg_value(x) for x in v],
        "t": lambda: tuple(arg_value(x) for x in v),
        "rev": lambda: reversed(tuple(arg_value(x) for x in v)),
        "enum": lambda: enumerate([arg_value(x) for x in v]),
        "zip": lambda: zip([arg_value(x) for x in v], [arg_value(x) for x in reversed(v)]),
        "ip": lambda: ipaddress.ip_network(v),
        "dec": lambda: decimal.Decimal(v),
        "frac": lambda: fractions.Fraction(v),
        "uuid": lambda: uuid.UUID(v),
        "obj": lambda: Thing(v),
        "nt": lambda: _NT(*[arg_value(x) for x in v]),
        "none": lambda: None,
        "ell": lambda: Ellipsis,
        "dict": lambda: dict(v),
        "set": lambda: set(v),
        "fset": lambda: frozenset(v),
        "range": lambda: range(v),
        "gen": lambda: (x for x in "ab"),
    }[kind]()


_NT = collections.namedtuple("_NT", "x y")


def spoil(x):
    if isinstance(x, (list, bytearray)):
        x.clear()
    elif isinstance(x, dict):
        x["spoiled"] = 1
    elif isinstance(x, (io.StringIO, io.BytesIO)):
        x.truncate(0)
    elif isinstance(x, Thing):
        x.text = "spoiled"


def _seek(f):
    f.seek(1)
    return f


def arg_tokens(a, coerce=None):
    "Reference: the arguments that it becomes."
    kind, v = a[0], a[1]
    if coerce == "dict" and kind == "dict":
        return [f"--{k}={x}" for k, x in dict(v).items()]
    if coerce == "none" and kind == "none":
        return ["-n", "0"]
    if kind == "s":
        return [v]
    if kind in ("b", "ba", "mv", "bio"):
        return [v.encode("latin-1")]
    if kind in ("i", "f", "bool"):
        return [str(arg_value(a))]
    if kind == "path":
        return [pathlib.Path(v)]
    if kind == "pure":
        return [pathlib.PurePosixPath(v)]
    if kind in ("sio", "dec", "ip", "obj", "uuid"):
        return [v]
    if kind == "frac":
        return [str(fractions.Fraction(v))]
    if kind in ("l", "t", "nt"):
        return [t for x in v for t in arg_tokens(x)]
    if kind == "rev":
        return [t for x in reversed(v) for t in arg_tokens(x)]
    if kind == "enum":
        return [t for i, x in enumerate(v) for t in [str(i)] + arg_tokens(x)]
    if kind == "zip":
        return [t for x, y in zip(v, reversed(v)) for t in arg_tokens(x) + arg_tokens(y)]
    raise Unsupported(kind)


def gen_arg(r, depth=0, bad=0.06):
    words = ["a", "", "x y", "-v", "\u00e9\u20ac", "$HOME", "a\nb", "'q'", "*", "--k=v", "\\", "\udcff"]
    if r.random() < bad:
        return r.choice([["none", None], ["ell", None], ["dict", {"a": "1", "b": "x"}], ["set", ["a"]], ["fset", ["a"]], ["range", 3], ["gen", 0]])
    k = r.random()
    if depth < 3 and k < 0.25:
        kind = r.choice(["l", "t", "rev", "enum", "zip", "nt"])
        n = 2 if kind == "nt" else r.choice([0, 1, 2, 3])
        return [kind, [gen_arg(r, depth + 1, bad / 2) for _ in range(n)]]
    if k < 0.55:
        return ["s", r.choice(words) + r.choice(["", "", str(int(r.random() * 1000))])]
    return r.choice([["b", "by\xff\x80"], ["b", "abc"], ["i", int(r.random() * 2000) - 1000], ["f", 1.5], ["bool", 1], ["bool", 0],
                     ["path", "/tmp/x"], ["path", "rel/f"], ["pure", "a/b"], ["ba", "\xe9z"], ["mv", "mem"], ["sio", "text\u00e9"], ["bio", "raw\xfe"],
                     ["ip", "10.0.0.0/30"], ["ip", "2001:db8::/127"], ["dec", "1.50"], ["frac", "3/7"], ["obj", "thing!"],
                     ["uuid", "12345678-1234-5678-1234-567812345678"]])


# ------------------------------------------------------------------ generator
ENV_VALUES = [["s", "v1"], ["s", ""], ["i", 7], ["f", 0.25], ["path", "/p/q"], ["bool", 1], ["s", "\u00e9"], ["obj", "thing"]]


def gen_env(r):
    keys = list(BASE_ENV) + ["OWN1", "own2", "PATHX", "_"]
    r.shuffle(keys)
    return [[k, r.choice(ENV_VALUES)] for k in keys[: r.choice([1, 1, 2, 3])]]


def gen_op(r, last):
    k = r.random()
    i = r.random() if r.random() < 0.75 else None       # None: what this task made last
    if r.random() < 0.08:
        what = [["env", kv] for kv in gen_env(r)] + r.choice([[], [["error_limit", 9], ["alt_name", "z"]], [["timeout", 60.0], ["encoding", "latin-1"]]])
        one = list(range(len(what)))
        two = list(one)
        r.shuffle(one)
        r.shuffle(two)
        return ["orders", i, one, two, what]
    if r.random() < 0.03:
        return ["assign", i, r.choice(["args", "options", "commands", "timeout", "env", "del", "options.timeout", "options.path", "options.env"])]
    if k < 0.17:
        return ["call", i, [gen_arg(r) for _ in range(r.choice([0, 1, 1, 2, 4]))]]
    if k < 0.27:
        return ["env", i, gen_env(r)]
    if k < 0.33:
        return ["setenv", i, r.choice([[], gen_env(r), gen_env(r), [[7, ["i", 8]]] + gen_env(r)])]
    if k < 0.37:
        return ["set", i, {"inherit_env": r.random() < 0.4}]
    if k < 0.45:
        return ["set", i, r.choice([{"exit_codes": [0, 3]}, {"exit_codes": [3]}, {"exit_codes": None}, {"alt_name": "nick"}, {"alt_name": None},
                                    {"encoding": "latin-1"}, {"encoding": "utf-8"}, {"encoding": "utf-8 replace"}, {"error_limit": 4},
                                    {"error_limit": None}, {"timeout": 50.0}, {"timeout": None, "alt_name": "two"}, {"path": "/sim/bin"},
                                    {"path": "/sim/none"}, {"path": None}, {"close_fds": False}, {"coerce_arg": "dict"}, {"coerce_arg": "none"},
                                    {"coerce_arg": None}, {"cancel_timeout": 1.0}, {"encoding": ""}])]
    if k < 0.53:
        return ["stdin", i, r.choice([["str", "input \u00e9\n"], ["bytes", "raw\xff\n"], ["bytearray", "ba\n"], ["str", ""], ["devnull", None],
                                      ["bad", "none"], ["bad", "stdout"]]), r.random() < 0.5]
    if k < 0.58:
        return ["stdout", i, r.choice([["devnull", None], ["buffer", None], ["file", "/sim/d/o1"], ["file", "/sim/d/o2"], ["bad", "none"], ["bad", "stdout"]]),
                r.choice(["m", "m", "op", "app"])]
    if k < 0.62:
        return ["stderr", i, r.choice([["devnull", None], ["buffer", None], ["stdout", None], ["bad", "none"]])]
    if k < 0.66:
        return ["result", i]
    if k < 0.75:
        return ["pipe", i, r.random() if r.random() < 0.7 else None]
    if k < 0.79:
        return ["environ", r.choice(BASE_ENV), r.choice([None, "e1", "e2", "e3"])]
    if k < 0.81:
        return ["sleep", r.choice([0.0, 0.001, 0.05])]
    mode = r.choice(["await", "await", "ctx", "aiter", "ret"])
    o = {}
    if r.random() < 0.5:
        o["bg"] = True
        if r.random() < 0.4:
            o["cancel"] = r.choice([0.0, 0.0005, 0.02, 0.2])
    return ["run", i, mode, o]


def generate(seed, prop="C24"):
    r = random.Random(f"values/{seed}")
    n = r.choice([1, 2, 3])
    progs = {}
    for i in range(n):
        progs[f"v{i}"] = dict(ops=[["cat", 0, 1], ["out", 2, ["lit", f"err{i}"], 50], ["sleep", r.choice([0, 0, 0.01, 0.2])],
                                   ["exit", r.choice([0, 0, 0, 3, 1])]])
    start = []
    for i in range(n):
        prog = r.choice([["s", f"v{i}"], ["s", f"v{i}"], ["b", f"v{i}"], ["path", f"/sim/bin/v{i}"], ["ba", f"v{i}"], ["obj", f"v{i}"], ["l", [["s", f"v{i}"], ["i", 5]]]])
        start.append([prog, [gen_arg(r, bad=0) for _ in range(r.choice([0, 0, 1, 2]))]])
    tasks = []
    for _ in range(r.choice([1, 2, 2, 3])):
        tasks.append(dict(delay=r.choice([None, 0.0, 0.001]), ops=[gen_op(r, None) for _ in range(r.choice([5, 12, 25]))]))
    spec = dict(
        seed=int(r.random() * (1 << 40)), family="values", prop=prop,
        kcfg=dict(cap=r.choice([16, 4096, 65536]), pcap=4096, reuse_fds=r.random() < 0.8, reuse_pids=False,
                  world=r.choice([0.05, 0.3, 0.6, 0.95]), sys_world=r.choice([0.0, 0.1, 0.5]), short_read=0, short_write=0,
                  eagain=r.choice([0, 0, 0.2]), child_delay=r.choice([0, 0, 0.1]), stall=r.choice([0, 0, 0, 0.01]), max_steps=400000),
        loop=dict(watcher=r.choice(["pidfd", "thread", "sh-epoll", "sh-thread"]), eager=r.random() < 0.1, hash=1 + int(r.random() * 1e9)),
        dirs=["/sim/d"], start=start, tasks=tasks, faults=[], programs=progs)
    if r.random() < 0.2:
        spec["faults"].append(list(r.choice([("fork", r.choice([1, 2, 3]), "EAGAIN"), ("pipe", r.choice([2, 5, 9]), "EMFILE"),
                                             ("exec", r.choice([1, 2, 4]), "ENOMEM"), ("open", r.choice([1, 2]), "EMFILE")])))
    return spec


# ---------------------------------------------------------------------- model
DEFAULTS = dict(env=None, inherit_env=True, exit_codes=None, alt_name=None, encoding="utf-8", error_limit=1024, timeout=None, path=None,
                close_fds=True, coerce_arg=None, cancel_timeout=3.0, stdin=None, stdin_close=False, stdout=None, stdout_append=False,
                stderr=None, ret=False)


class Model:
    "Reference for a value: what it is, and the calls that made it."

    def __init__(self, kind, args, opts, members, recipe):
        self.kind = kind            # ctx, cmd, pipe
        self.args = args            # tuple of str/bytes/Path
        self.opts = opts
        self.members = members      # of a pipeline
        self.recipe = recipe        # (function(objects) -> value, operand models)

    def key(self):
        if self.kind == "pipe":
            return ("pipe",) + tuple(m.key() for m in self.members)
        o = dict(self.opts)
        o["env"] = o["env"] and tuple(sorted(o["env"].items()))
        return (self.kind, self.args, tuple(sorted((k, repr(v)) for k, v in o.items())))

    def last(self):
        return self.members[-1] if self.kind == "pipe" else self


class Value:
    def __init__(self, obj, model, fam):
        self.obj = obj
        self.model = model
        self.key = model.key()
        self.hash = fam.hash(obj)
        self.text = str(obj) if model.kind == "cmd" else ""


class RunRec:
    def __init__(self, value, mode):
        self.value = value
        self.mode = mode
        self.outcome = None
        self.cancelled = False
        self.procs = []
        self.ver = None     # environment versions at the start and at each exec
        self.text = None


class Family:
    def __init__(self, sim):
        self.sim = sim
        self.values = []
        self.runs = []
        self.envs = []      # versions of the inherited environment
        self.jobs = []
        self.nops = 0

    def nontrivial(self, sim):
        return self.nops >= 4 and len(self.values) > 4

    def bad(self, props, kind, text):
        self.sim.violate(props, kind, text[:3000])

    def hash(self, obj):
        try:
            return hash(obj)
        except TypeError:
            return None     # (made of something that cannot be hashed)

    # ----------------------------------------------------------- operations
    def pick(self, i, st):
        if i is None and st.get("last") is not None:
            return st["last"]
        return self.values[int((i or 0.0) * len(self.values))]

    def add(self, fn, operands, kind, args, opts, members=None):
        m = Model(kind, args, opts, members, (fn, operands))
        v = Value(fn(*[x.obj for x in operands]), m, self)
        self.values.append(v)
        return v

    def rebuild(self, m):
        fn, operands = m.recipe
        return fn(*[self.rebuild(x.model) for x in operands])

    def refuse(self, fn, operands, what):
        try:
            v = fn(*[x.obj for x in operands])
        except (TypeError, ValueError):
            return
        self.bad(("C23",), "unsupported-accepted", f"{what}: {v!r}")

    def change(self, v, fn, **opts):
        "A value made from `v` by setting options (of the last command; input: the first)."
        m = v.model
        if m.kind == "pipe":
            i = 0 if "stdin" in opts else len(m.members) - 1
            new = Model("cmd", m.members[i].args, {**m.members[i].opts, **opts}, None, None)
            return self.add(fn, [v], "pipe", None, None, m.members[:i] + (new,) + m.members[i + 1:])
        return self.add(fn, [v], m.kind, m.args, {**m.opts, **opts})

    def assign(self, v, name):
        "Assignments to a value are refused."
        o = v.obj
        opts = getattr(o, "options", None)
        if name == "env":
            if opts is None or not opts.env:
                return
            todo = lambda: opts.env.__setitem__("SPOILED", "1")
        elif name == "del":
            todo = lambda: delattr(o, "options" if opts is not None else "commands")
        elif name.startswith("options."):
            if opts is None:
                return
            todo = lambda: setattr(opts, name[8:], 1)
        else:
            todo = lambda: setattr(o, name, ())
        try:
            todo()
        except (AttributeError, TypeError):
            return
        self.bad(("C24",), "mutable", f"{name}: {o!r}")

    def apply(self, op, st):
        kind = op[0]
        v = self.pick(op[1], st)
        m = v.model
        if kind == "call":
            if m.kind == "pipe":
                if op[2]:
                    self.refuse(lambda o: o(*[arg_value(a) for a in op[2]]), [v], "arguments for a pipeline")
                    return v
                return self.add(lambda o: o(), [v], "pipe", None, None, m.members)
            if m.kind == "ctx" and not op[2]:
                self.refuse(lambda o: o(), [v], "no program")
                return v
            new = op[2]
            if m.kind == "ctx":
                prog, more = self.sim.spec["start"][len(self.values) % len(self.sim.spec["start"])]
                new = [prog] + more + new

            def fn(o):
                given = [arg_value(a) for a in new]
                made = o(*given)
                for x in given:
                    spoil(x)    # (the command has its own copy)
                return made
            try:
                args = m.args + tuple(t for a in new for t in arg_tokens(a, m.opts["coerce_arg"]))
            except Unsupported as ex:
                self.refuse(fn, [v], f"argument of type {ex}")
                return v
            if not args:
                self.refuse(fn, [v], "no program")
                return v
            return self.add(fn, [v], "cmd", args, m.opts)
        if kind == "env":
            if m.kind == "pipe":
                return v
            env = dict(m.opts["env"] or {})
            env.update((k, str(arg_value(a))) for k, a in op[2])
            return self.change(v, lambda o: o.env(**{k: arg_value(a) for k, a in op[2]}), env=env)
        if kind == "setenv":
            if m.kind == "pipe":
                return v
            env = {str(k): str(arg_value(a)) for k, a in op[2]} or None

            def fn(o):
                given = {k: arg_value(a) for k, a in op[2]}
                made = o.set(env=given)
                given["SPOILED"] = "1"
                return made
            return self.change(v, fn, env=env)
        if kind == "orders":
            # The same settings, one by one, in two orders.
            if m.kind == "pipe":
                return v
            out = []
            for order in (op[2], op[3]):
                w = v
                for j in order:
                    name, x = op[4][j]
                    if name == "env":
                        env = {**(w.model.opts["env"] or {}), x[0]: str(arg_value(x[1]))}
                        w = self.change(w, lambda o, x=x: o.env(**{x[0]: arg_value(x[1])}), env=env)
                    else:
                        w = self.change(w, lambda o, name=name, x=x: o.set(**{name: x}), **{name: x})
                out.append(w)
            return out[-1]
        if kind == "assign":
            self.assign(v, op[2])
            return v
        if kind == "set":
            if m.kind == "pipe":
                return v
            kw = dict(op[2])
            real = dict(kw)
            if "exit_codes" in kw and kw["exit_codes"] is not None:
                kw["exit_codes"] = frozenset(kw["exit_codes"])
                real["exit_codes"] = kw["exit_codes"]
            if kw.get("coerce_arg"):
                real["coerce_arg"] = COERCE[kw["coerce_arg"]]
            if kw.get("encoding") == "":
                if m.kind == "cmd":
                    self.refuse(lambda o: o.set(**real), [v], "empty encoding")
                return v
            return self.change(v, lambda o: o.set(**real), **kw)
        if kind == "stdin":
            t, x = op[2]
            if t == "bad":
                self.refuse(lambda o: o.stdin(None if x == "none" else sh.STDOUT), [v], f"stdin {x}")
                return v
            make = {"str": lambda: x, "bytes": lambda: x.encode("latin-1"), "bytearray": lambda: bytearray(x.encode("latin-1")),
                    "devnull": lambda: sh.DEVNULL}[t]
            if op[3] and m.kind != "ctx":
                return self.change(v, lambda o: make() | o, stdin=(t, make()), stdin_close=False)
            return self.change(v, lambda o: o.stdin(make()), stdin=(t, make()), stdin_close=False)
        if kind == "stdout":
            t, x = op[2]
            if t == "bad":
                self.refuse(lambda o: o.stdout(None if x == "none" else sh.STDOUT), [v], f"stdout {x}")
                return v
            make = {"devnull": lambda: sh.DEVNULL, "buffer": lambda: sh.BUFFER, "file": lambda: pathlib.Path(x)}[t]
            app = op[3] == "app"
            if op[3] == "m" or m.kind == "ctx":
                return self.change(v, lambda o: o.stdout(make(), append=app), stdout=(t, make()), stdout_append=app)
            if app:
                return self.change(v, lambda o: o >> make(), stdout=(t, make()), stdout_append=True)
            return self.change(v, lambda o: o | make(), stdout=(t, make()), stdout_append=False)
        if kind == "stderr":
            t, x = op[2]
            if t == "bad":
                self.refuse(lambda o: o.stderr(None), [v], "stderr None")
                return v
            make = {"devnull": lambda: sh.DEVNULL, "buffer": lambda: sh.BUFFER, "stdout": lambda: sh.STDOUT}[t]
            return self.change(v, lambda o: o.stderr(make()), stderr=(t, make()))
        if kind == "result":
            return self.change(v, lambda o: o.result, ret=True, exit_codes="all")
        if kind == "pipe":
            w = self.pick(op[2], st)
            n = w.model
            if m.kind == "ctx" or n.kind == "ctx":
                self.refuse(lambda a, b: a | b, [v, w], "pipeline of a context")
                return v
            a = m.members if m.kind == "pipe" else (m,)
            b = n.members if n.kind == "pipe" else (n,)
            if len(a) + len(b) > 4:
                return v
            return self.add(lambda p, q: p | q, [v, w], "pipe", None, None, a + b)
        raise ValueError(op)

    # -------------------------------------------------------------- checks
    def check(self, full=False):
        "Nothing that exists has changed."
        for v in self.values:
            if self.hash(v.obj) != v.hash:
                self.bad(("C24",), "hash-changed", f"{v.key}: {v.hash} is now {self.hash(v.obj)}")
            if v.text and str(v.obj) != v.text:
                self.bad(("C24",), "value-changed", f"{v.text!r} is now {str(v.obj)!r}")
        if not full:
            return
        for v in self.values:
            twin = self.rebuild(v.model)
            if not (twin == v.obj) or twin != v.obj:
                self.bad(("C24",), "value-changed", f"no longer equal to what the same calls make: {v.obj!r} / {twin!r}")
            if self.hash(twin) != v.hash:
                self.bad(("C24",), "hash-differs", f"equal values, different hashes: {v.obj!r}")
            if v.model.kind == "pipe":
                if len(v.obj) != len(v.model.members):
                    self.bad(("C24",), "value-changed", f"length {len(v.obj)}, {len(v.model.members)} commands")
        for i, v in enumerate(self.values):
            for w in self.values[i + 1:]:
                same = v.key == w.key
                if (v.obj == w.obj) != same or (w.obj == v.obj) != same:
                    self.bad(("C24",), "equality", f"{v.obj!r} {'==' if v.obj == w.obj else '!='} {w.obj!r}")
                elif same and self.hash(v.obj) != self.hash(w.obj):
                    self.bad(("C24",), "hash-differs", f"equal values, different hashes: {v.obj!r} {w.obj!r}")

    # ---------------------------------------------------------------- runs
    async def run(self, rec):
        self.runs.append(rec)
        rec.ver = len(self.envs) - 1
        task = asyncio.current_task()
        mode = rec.mode
        obj = rec.value.obj
        try:
            if mode == "await":
                out = await obj
            elif mode == "ret":
                out = await obj.result
            elif mode == "aiter":
                text = []
                async for line in obj:
                    text.append(line)
                out = "".join(text)
            else:
                async with obj as run:
                    pass
                out = run.result()
            rec.outcome = ("ok", out)
        except asyncio.CancelledError:
            rec.outcome = ("cancelled", None)
            rec.cancelled = True
            raise
        except Exception as ex:
            rec.outcome = ("exc", ex)
        finally:
            if task.cancelling():
                rec.cancelled = True
            self.sim.k.emit("values_end", rec.outcome and rec.outcome[0])

    # ---------------------------------------------------------------- judge
    def judge_hang(self, sim):
        self.bad(("C24",), "values-hang", f"{sim.hang[0]}: {[r.mode for r in self.runs if r.outcome is None]}")

    def expected_env(self, m, ver):
        env = dict(self.envs[ver]) if m.opts["inherit_env"] else {}
        env.update(m.opts["env"] or {})
        return env

    def matches(self, p, m, lo, hi):
        "None, or why process `p` is not a process of command `m`."
        args = [os.fsencode(a) for a in m.args]
        if not os.path.dirname(args[0]):
            args[0] = b"/sim/bin/" + args[0]
        got = [os.fsencode(a) for a in p.argv]
        if got != args:
            return f"arguments {got}, expected {args}"
        env = {}
        for item in p.env_full:
            k, _, x = item.partition(b"=")
            env[k.decode()] = x.decode("utf-8", "surrogateescape")
        if not any(env == self.expected_env(m, x) for x in range(lo, hi + 1)):
            want = self.expected_env(m, hi)
            return f"environment differs: {sorted(set(env.items()) ^ set(want.items()))}"
        return None

    def judge(self, sim):
        k = sim.k
        self.check(full=True)
        errs = sum(n for name, n in k.fired.items() if ":" in name)
        procs = [p for p in k.all_procs if p.launched]
        for rec in self.runs:
            m = rec.value.model
            members = m.members if m.kind == "pipe" else (m,)
            o = rec.outcome
            if o is None:
                continue
            mine = [p for p in procs if p.values_rec is rec]
            what = f"{rec.mode} {m.key()}"
            # Each process is one of the members, with its arguments and environment.
            left = list(members)
            for p in mine:
                why = None
                for x in left:
                    why = self.matches(p, x, rec.ver, p.env_ver)
                    if why is None:
                        left.remove(x)
                        break
                else:
                    self.bad(("C23",), "arguments" if why and why.startswith("arg") else "environment", f"{what}: process {p.name}: {why}")
            # How it ended.
            if rec.cancelled:
                continue
            missing = [x for x in members if x.opts["path"] == "/sim/none" and not os.path.dirname(os.fsencode(x.args[0]))]
            bad_in = any(x.opts["encoding"] != "utf-8" for x in members)
            if missing:
                if o[0] != "exc":
                    self.bad(("C23",), "path-ignored", f"{what}: {o[0]} although the program is not in the given path")
                continue
            if errs:
                continue
            if left and not (o[0] == "exc" and len(members) > 1):
                self.bad(("C23", "C24"), "not-run", f"{what}: {len(left)} commands were not run: {o}")
                continue
            if len(members) > 1 or bad_in or o[0] == "exc" and not isinstance(o[1], ResultError):
                if o[0] == "exc" and not isinstance(o[1], (ResultError, UnicodeDecodeError, BrokenPipeError)):
                    self.bad(("C23", "C24"), "run-error", f"{what}: {o[1]!r}")
                continue
            p = mine[0]
            codes = m.opts["exit_codes"]
            ok = codes == "all" or p.exit_code in (codes or {0})
            ret = m.opts["ret"]
            if rec.mode == "ret":
                ok = ret = True
            if rec.mode == "ctx":
                ret = True
            if rec.mode == "aiter":
                ok = True       # (an iteration does not check the exit status)
            if ok != (o[0] == "ok"):
                self.bad(("C24",), "exit-codes", f"{what}: exit status {p.exit_code}, {o}")
                continue
            if o[0] != "ok":
                continue
            inp = m.opts["stdin"]
            data = b""
            if inp and inp[0] in ("str", "bytes", "bytearray"):
                data = inp[1].encode() if inp[0] == "str" else bytes(inp[1])
            if bytes(p.read.get(0, b"")) != data:
                self.bad(("C24",), "input", f"{what}: read {bytes(p.read.get(0, b''))!r}, expected {data!r}")
            if rec.mode != "aiter" and hasattr(o[1], "exit_code") != ret:
                self.bad(("C24",), "result-type", f"{what}: {o[1]!r}")


async def main(sim):
    fam = sim.family = Family(sim)
    k = sim.k
    me = asyncio.current_task()
    sim.harness_tasks.add(me)
    saved = dict(os.environ)

    def restore():
        for key in BASE_ENV:
            os.environ.pop(key, None)
        for key in list(os.environ):
            if key not in saved:
                del os.environ[key]
        os.environ.update(saved)
    sim.cleanups.append(restore)
    os.environ["SIM_A"] = "base"
    fam.envs.append(dict(os.environ))
    spec = sim.spec

    def on_exec(p):
        p.env_ver = len(fam.envs) - 1
        p.values_rec = _OWNER.get()
    k.exec_hook = on_exec

    ctx = fam.add(lambda: sh, [], "ctx", (), dict(DEFAULTS))
    for prog, args in spec["start"]:
        tok = arg_tokens(prog) + [t for a in args for t in arg_tokens(a)]
        fam.add(lambda o, prog=prog, args=args: o(arg_value(prog), *[arg_value(a) for a in args]), [ctx], "cmd", tuple(tok), dict(DEFAULTS))
    k.armed = True

    async def one(t):
        st = {}
        if t.get("delay") is not None:
            await asyncio.sleep(t["delay"])
        for op in t["ops"]:
            fam.nops += 1
            if op[0] == "sleep":
                await asyncio.sleep(op[1])
                continue
            if op[0] == "environ":
                if op[2] is None:
                    os.environ.pop(op[1], None)
                else:
                    os.environ[op[1]] = op[2]
                fam.envs.append(dict(os.environ))
                continue
            if op[0] == "run":
                v = fam.pick(op[1], st)
                if v.model.kind == "ctx":
                    continue
                if len(fam.runs) > 12:
                    continue
                job = asyncio.ensure_future(_owned(fam, v, op[2]))
                sim.harness_tasks.add(job)
                fam.jobs.append(job)
                if op[3].get("cancel") is not None:
                    sim.loop.call_later(op[3]["cancel"], job.cancel)
                if not op[3].get("bg"):
                    await asyncio.wait([job])
            else:
                if len(fam.values) > 40:
                    continue
                st["last"] = fam.apply(op, st)
            fam.check()

    tasks = []
    for t in spec["tasks"]:
        task = asyncio.ensure_future(one(t))
        sim.harness_tasks.add(task)
        tasks.append(task)
    await asyncio.wait(tasks)
    if fam.jobs:
        await asyncio.wait(fam.jobs)
    for t in tasks + fam.jobs:
        if not t.cancelled() and t.exception() is not None:
            raise t.exception()
    for _ in range(25):
        await asyncio.sleep(0)
    k.triggers.clear()
    k.armed = False
    sim.watcher.close()


async def _owned(fam, v, mode):
    # (tasks that the library makes for this run inherit the context)
    rec = RunRec(v, mode)
    _OWNER.set(rec)
    await fam.run(rec)
