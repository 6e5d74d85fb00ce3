"""C02: first use is safe: any import order, many threads, interrupted imports
retried."""
import copy
import importlib
import os
import sys

from .. import adf, boot, clients, core, faults, ops, world
from . import c04, c11

ID = "C02"
ZYGOTE = "cold"
RUNS = {"quick": 700, "thorough": 30000}
MUST_PROBE = ["threads_overlapped", "first_import", "interrupted_import", "interrupted_use", "retried", "direct_class", "waited"]
EXC = ["KeyboardInterrupt", "SystemExit", "MemoryError", "RecursionError", "ImportError", "OSError"]
MODULES = []
BROKEN = []  # first uses that fail without any fault
CLASSES = {}  # type name -> (module, class name, is_mark)


def setup(env):
    # packages the library's modules import, so that only the library is cold
    for m in ("jinja2", "subprocess", "contextlib", "textwrap"):
        try:
            importlib.import_module(m)
        except ImportError:
            pass
    for path in sorted(boot._codes):
        rel = os.path.relpath(path, boot.REPO)[:-3].replace(os.sep, ".")
        if rel.endswith(".__init__"):
            rel = rel[: -len(".__init__")]
        MODULES.append(rel)

    def optional(m):
        """Does the module need a package that is not installed?"""
        try:
            importlib.import_module(m)
        except ModuleNotFoundError as e:
            return (e.name or "").split(".")[0] != boot.PKG
        except Exception:
            pass
        return False

    def look(t):
        try:
            cls = type((env.api.parse_mark if t in adf.MARKS else env.api.parse_node)(minimal(t)))
        except Exception as e:
            return None, f"{type(e).__name__}: {e}"
        return (cls.__module__, cls.__name__, t in adf.MARKS), None

    def survey():
        try:
            env.load()
        except Exception as e:
            return [], {}, [f"import {boot.PKG}.api in a new process: {type(e).__name__}: {e}"]
        ok = [m for m in MODULES if not world.isolated(lambda: optional(m))]
        found, broken = {}, []
        for t in list(adf.A) + list(adf.MARKS):
            found[t], err = world.isolated(lambda: look(t))
            if err:
                broken.append(f"the first thing an ordinarily started process parses is a {t}: {err}")
        return ok, found, broken
    MODULES[:], found, BROKEN[:] = world.isolated(survey)
    CLASSES.update(found)


def minimal(t):
    import random
    if t == "tableRow":
        return {"type": t, "content": []}
    rng = random.Random(1)
    g = adf.Gen(rng, size=1, depth=0)
    return adf.clean(g.mark(t) if t in adf.MARKS else g.node(t, 0))


def gen(rng, i, tier):
    docs = [ops.mixed_doc(rng, size=rng.choice([2, 4, 8])) for _ in range(rng.choice([1, 2]))]
    nt = rng.choice([1, 2, 2, 3])
    threads = []
    interrupts = rng.random() < 0.5
    for k in range(nt):
        t = []
        for _ in range(rng.choice([1, 2, 3])):
            inj = [rng.choice(EXC), rng.getrandbits(30)] if interrupts and rng.random() < 0.5 else None
            x = rng.random()
            if x < 0.35:
                t.append(["import", rng.randrange(10**6), 0, inj])
            elif x < 0.6:
                t.append(["class", rng.randrange(10**6), rng.getrandbits(16), inj])
            else:
                t.append([rng.choice(["md", "mdi", "dict", "parse", "again", "mark", "sub"]), rng.randrange(len(docs)), rng.getrandbits(16), inj])
        threads.append(t)
    if rng.random() < 0.35:  # everybody does the same first thing
        threads = [copy.deepcopy(threads[0]) for _ in range(nt)]
    grain = rng.choice(["call", "line", "line"])
    return {
        "docs": docs, "threads": threads, "grain": grain, "route": rng.randrange(3), "warn": rng.random() < 0.5,
        "sched": core.gen_policy(rng, {"call": 600, "line": 3000}[grain]) if nt > 1 else None,
    }


class ColdApi:
    """The public entry points, each imported at the moment it is used."""

    def __init__(self, route):
        self.route = route

    def _get(self, mod, name):
        if self.route == 0:
            mod = "atlas_doc_parser.api"
        return getattr(importlib.import_module(mod), name)

    @property
    def NodeDoc(self):
        if self.route == 2:
            from atlas_doc_parser.nodes.node_doc import NodeDoc
            return NodeDoc
        return self._get("atlas_doc_parser.nodes.node_doc", "NodeDoc")

    @property
    def parse_node(self):
        if self.route == 2:
            from atlas_doc_parser.nodes.parse_node import parse_node
            return parse_node
        return self._get("atlas_doc_parser.nodes.parse_node", "parse_node")

    @property
    def parse_mark(self):
        if self.route == 2:
            from atlas_doc_parser.marks.parse_mark import parse_mark
            return parse_mark
        return self._get("atlas_doc_parser.marks.parse_mark", "parse_mark")


class ColdEnv:
    def __init__(self, route):
        self.api = ColdApi(route)


def pick_class(data, step):
    """An element of the documents and the class of its type."""
    els = [(e, m) for d in data for e, m, p in adf.elements(d) if adf.known(e, m)]
    e, m = els[step[2] % len(els)]
    return e, CLASSES[e["type"]]


def do(cold, data, step):
    kind = step[0]
    if kind == "import":
        importlib.import_module(MODULES[step[1] % len(MODULES)])
        return True
    if kind == "class":
        e, (mod, name, is_mark) = pick_class(data, step)
        v = getattr(importlib.import_module(mod), name).from_dict(e)
        if is_mark:
            d, md = v.to_dict(), v.to_markdown("abc")
        else:
            d, md = v.to_dict(), v.to_markdown(ignore_error=True)
        with core.quiet():
            return (world.walk(v), adf.freeze(d), md)
    return ops.do_op(cold, data, step[:3])


def observe(cold, data, step):
    return world.outcome(lambda: do(cold, data, step), image=lambda v: v)


def execute(plan, env, run):
    if not plan["docs"]:
        return
    if BROKEN:
        raise world.Violation("wrong-first-use", BROKEN[0])
    data = [adf.clean(d) for d in plan["docs"]]
    assert boot.PKG not in sys.modules
    flat = [x for t in plan["threads"] for x in t]

    def reference():
        """Every step in an ordinarily started process, each alone."""
        env.load()
        world.attach_sink(env)
        return [world.isolated(lambda: observe(ColdEnv(0), copy.deepcopy(data), x)) for x in flat]
    ref = world.isolated(reference)
    for x, o in zip(flat, ref):
        if o[0] == "exc" and o[1] in ("ImportError", "ModuleNotFoundError"):
            raise world.Violation("wrong-first-use", f"{label(x, data)} alone in an ordinarily started process: {o[1]}: {o[2]}")
    want, it = [], iter(ref)
    for t in plan["threads"]:
        want.append([next(it) for _ in t])

    # injectable points of each step when it is the first thing that happens
    def count(k, j):
        def fn():
            world.attach_sink(env)
            env.instrument(None, inject=True)
            cold = ColdEnv(plan["route"])
            for x in plan["threads"][k][:j]:
                observe(cold, data, x)
            with core.Solo() as s:
                observe(cold, data, plan["threads"][k][j])
            return s.count
        return world.isolated(fn)

    work = []
    for k, t in enumerate(plan["threads"]):
        work.append([(x, 1 + x[3][1] % max(1, count(k, j)) if x[3] else 0) for j, x in enumerate(t)])
    world.attach_sink(env)
    cold = ColdEnv(plan["route"])
    failures = [0]  # interrupted imports, seen by everybody
    active = {}

    def attempt(t, x, nth):
        if not nth:
            return observe(cold, data, x), None
        name = x[3][0]
        if t is not None:
            t.inj_count, t.fired = 0, None
            t.inj = (nth, lambda: c04.make(name))
            o = observe(cold, data, x)
            t.inj = None
            return o, t.fired
        with core.Solo(nth, lambda: c04.make(name)) as s:
            o = observe(cold, data, x)
        return o, s.fired

    def client(k):
        def body():
            with core.quiet():
                t = core.CURRENT.current_task() if core.CURRENT else None
            for j, (x, nth) in enumerate(work[k]):
                w = want[k][j]
                f0 = failures[0]
                o, fired = attempt(t, x, nth)
                with core.quiet():
                    run.calls += 1
                    core.note(f"{k}:{x[0]}:{o[0]}:{fired}")
                    if x[0] == "import":
                        run.probe("first_import")
                    if x[0] == "class":
                        run.probe("direct_class")
                    if fired:
                        failures[0] += 1
                        run.fault("interrupt:" + x[3][0])
                        run.probe("interrupted_import" if "<module>" in fired else "interrupted_use")
                        real = x[3][0]
                        if o != w and not (o[0] == "exc" and o[1] == real) and not swallowed(x, o, real):
                            raise world.Violation("failure-not-reported", f"{real} at {fired} in {x[:2]}: caller got {world.short(o)}")
                    elif o != w:
                        if failures[0] != f0 or failures[0] and multi:
                            # shared an import that was interrupted elsewhere: a
                            # reported import failure is legitimate, once
                            if not (o[0] == "exc" and o[1] in ("ImportError", "AttributeError", "KeyError", "ModuleNotFoundError")):
                                raise world.Violation("wrong-first-use", f"{x[:2]}: {world.diff_text(w, o)}")
                        else:
                            raise world.Violation("wrong-first-use", f"thread {k}, {label(x, data)}: {world.diff_text(w, o)}")
                    else:
                        continue
                # try again
                for again in range(6):
                    f1 = failures[0]
                    o, fired = attempt(t, x, 0)
                    with core.quiet():
                        run.probe("retried")
                        if o == w:
                            break
                        if failures[0] == f1 and not (multi and again < 4 and failures[0]):
                            raise world.Violation("retry-fails", f"thread {k}, {label(x, data)} after a failed first use: {world.diff_text(w, o)}")
        return body

    multi = len(work) > 1 and plan["sched"]
    bodies = [c11.guard(client(k)) for k in range(len(work))]
    inject = any(x[3] for x in flat)
    if multi:
        env.instrument(plan["grain"], inject=inject)
        res, _ = run.simulate(bodies, plan["sched"])
        if run.switches:
            run.probe("threads_overlapped")
    else:
        if inject:
            env.instrument(None, inject=True)
        res = [b() for b in bodies]
    core.instrument(env.codes, None)
    for r in res:
        if isinstance(r, world.Violation):
            raise r
    if core.WAITS[0]:
        run.probe("waited", core.WAITS[0])
    # once the faults stopped, everything works in this process
    for k, t in enumerate(plan["threads"]):
        for j, x in enumerate(t):
            o = observe(ColdEnv((plan["route"] + 1) % 3), data, x)
            if o != want[k][j]:
                raise world.Violation("left-broken", f"{label(x, data)} afterwards: {world.diff_text(want[k][j], o)}")
    for m in MODULES:
        try:
            importlib.import_module(m)
        except BaseException as e:
            raise world.Violation("left-broken", f"import {m} afterwards: {type(e).__name__}: {e}")
    run.mix([[world.short(x) for x in w] for w in want])


def swallowed(x, o, real):
    """With errors ignored an ordinary error counts as one failing node; other
    uses report it."""
    if real in ("KeyboardInterrupt", "SystemExit"):
        return False
    return x[0] in ("mdi", "class") or (x[0] in ("sub", "mark") and x[2] & 1)


def label(x, data):
    if x[0] == "import":
        return "import " + MODULES[x[1] % len(MODULES)]
    if x[0] == "class":
        return "direct use of " + ".".join(pick_class(data, x)[1][:2])
    return f"{x[0]} of document {x[1] % len(data)}"
