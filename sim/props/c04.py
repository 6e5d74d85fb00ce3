"""C04: an interrupt or exhausted memory/stack leaves no partial result and no
damage."""
import copy
import re
import sys

from .. import adf, core, faults, ops, world
from . import c03, c11

ID = "C04"
RUNS = {"quick": 2200, "thorough": 70000}
MUST_PROBE = ["threads_overlapped", "fired", "stack", "swallowed_ok", "raised", "repeated", "other_thread_exact", "deep_point", "storm", "in_log_handler"]
INTR = ["KeyboardInterrupt", "SystemExit", "GeneratorExit", "CancelledError", "Timeout"]
ALLOC = ["MemoryError", "RecursionError"]
TOKEN = re.compile(r"q\d+z")


class Timeout(BaseException):
    """What a watchdog raises asynchronously into a worker."""


def make(name):
    if name == "Timeout":
        return Timeout("injected")
    if name == "CancelledError":
        import asyncio.exceptions
        return asyncio.exceptions.CancelledError("injected")
    import builtins
    return getattr(builtins, name)("injected")


def setup(env):
    import asyncio.exceptions  # noqa: importable before any injection


def gen(rng, i, tier):
    if rng.random() < 0.03:
        return gen_storm(rng)
    if rng.random() < 0.06:
        return gen_log(rng)
    docs = [ops.mixed_doc(rng, size=rng.choice([3, 8, 20])) for _ in range(rng.choice([1, 1, 2]))]
    nt = rng.choice([1, 1, 2, 3])
    grain = rng.choice(["line", "call", "call"])
    threads = []
    for k in range(nt):
        t = []
        for _ in range(rng.choice([1, 2, 3])):
            op = ops.gen_op(rng, len(docs))
            tries = []
            for _ in range(rng.choice([1, 2, 4]) if (k == 0 or rng.random() < 0.5) else 0):
                if nt == 1 and rng.random() < 0.2:
                    tries.append(["stack", rng.randrange(1, 140)])
                elif nt == 1 and op[0] not in ("md", "mdi") and rng.random() < 0.15:
                    tries.append(["log:" + rng.choice(INTR + ALLOC), rng.choice([1, 1, 2, 3, 5])])
                else:
                    tries.append([rng.choice(INTR + ALLOC + ALLOC), rng.getrandbits(30)])
            t.append([op[0], op[1], op[2], tries])
        threads.append(t)
    return {
        "docs": docs, "threads": threads, "grain": grain, "support": rng.random() < 0.6, "shared": rng.random() < 0.6,
        "sched": core.gen_policy(rng, {"op": 6000, "line": 1200, "call": 300}[grain]) if nt > 1 else None, "warn": rng.random() < 0.5,
    }


def gen_storm(rng):
    """One caller hit again and again by the same kind of fault: whatever a
    single hit leaves behind adds up."""
    docs = [ops.mixed_doc(rng, size=rng.choice([4, 8]), depth=rng.choice([3, 6]))]
    kinds = rng.sample(INTR + ALLOC, rng.choice([1, 1, 3]))
    op = ops.gen_op(rng, 1, rng.choice([["parse"], ops.OPS]))
    tries = [[rng.choice(kinds), rng.getrandbits(30)] for _ in range(rng.choice([150, 400]))]
    return {"docs": docs, "threads": [[[op[0], op[1], op[2], tries]]], "grain": "call", "support": rng.random() < 0.3, "shared": rng.random() < 0.5, "sched": None, "warn": False}


def gen_log(rng):
    """Signals that arrive while a warning is being handled."""
    docs = [faults.add_unknown(rng, ops.mixed_doc(rng, malformed=0, size=rng.choice([3, 8])), rng.choice([2, 6])) for _ in range(2)]
    t = []
    for _ in range(rng.choice([1, 3])):
        op = ops.gen_op(rng, len(docs))
        t.append(op + [[["log:" + rng.choice(INTR + ALLOC), rng.choice([1, 1, 2, 3, 5])] for _ in range(rng.choice([1, 2, 4]))]])
    return {"docs": docs, "threads": [t], "grain": "call", "support": False, "shared": False, "sched": None, "warn": True}


def execute(plan, env, run):
    if not plan["docs"]:
        return
    data = [adf.clean(d) for d in plan["docs"]]
    flat = [x[:3] for t in plan["threads"] for x in t]
    want = ops.alone_many(env, data, flat)
    counts = {}
    nodes = {}
    sink = world.attach_sink(env)
    env.settings.WARN_UNIMPLEMENTED_TYPE = plan["warn"]
    if plan["shared"]:
        for n, d in enumerate(data):
            try:
                nodes[n] = env.api.NodeDoc.from_dict(copy.deepcopy(d))
            except Exception:
                pass
    shots = {n: world.walk(v) for n, v in nodes.items()}

    def node_of(op):
        return nodes.get(op[1] % len(data)) if op[0] not in ("sub", "mark") else None

    for t in plan["threads"]:
        for x in t:
            k = ops.key(x, data)
            if x[3] and k not in counts:
                counts[k] = points(env, data, x[:3], node_of(x), plan["support"])
    images = [c11.image(d) for d in data]
    multi = len(plan["threads"]) > 1 and plan["sched"]

    def attempt(op, inj, t):
        """One call, hit by the fault; returns (outcome, fired)."""
        if inj is None:
            return ops.observe(env, data, op, node_of(op)), None
        name, r = inj
        if name == "stack":
            base = c03.depth()
            old = sys.getrecursionlimit()
            try:
                sys.setrecursionlimit(base + 4 + r)
                o = observe_raw(env, data, op, node_of(op))
            finally:
                sys.setrecursionlimit(old)
            return o, "stack"
        if name.startswith("log:"):
            sink.make = lambda: make(name[4:])
            sink.plan = {str(sink.n + r): "raise"}
            before = sink.fired.get("raise", 0)
            o = ops.observe(env, data, op, None)
            sink.plan = {}
            return o, "the log handler" if sink.fired.get("raise", 0) > before else None
        nth = 1 + r % max(1, counts[ops.key(op, data)])
        if t is not None:
            t.inj_count, t.fired = 0, None
            t.inj = (nth, lambda: make(name))
            o = ops.observe(env, data, op, node_of(op))
            t.inj = None
            return o, t.fired
        with core.Solo(nth, lambda: make(name)) as s:
            o = ops.observe(env, data, op, node_of(op))
        return o, s.fired

    def judge(op, inj, fired, o):
        w = want[ops.key(op, data)]
        run.calls += 1
        if inj is None or not fired:
            if o != w:
                cls = "not-repeatable" if inj is None else "differs"
                raise world.Violation(cls + ":" + op[0], f"{op[0]} of document {op[1] % len(data)} after an interrupted call: {world.diff_text(w, o)}")
            return
        name = inj[0]
        if name.startswith("log:"):
            name = name[4:]
            run.probe("in_log_handler")
        run.fault(name)
        run.probe("fired")
        real = "RecursionError" if name == "stack" else name
        if name == "stack":
            run.probe("stack")
        elif inj[0] == name and inj[1] % max(1, counts[ops.key(op, data)]) > 200:
            run.probe("deep_point")
        ignoring = op[0] == "mdi" or (op[0] in ("sub", "mark") and op[2] & 1)
        if o[0] == "exc" and o[1] == real:
            run.probe("raised")
            return
        if o == w and name not in INTR:
            return  # completed exactly
        if name in INTR:
            raise world.Violation("interrupt-swallowed", f"{name} at {fired} during {op[0]} did not reach the caller: {world.short(o)}")
        if ignoring:
            # a failed allocation counts as the failure of one node
            a = text_of(o)
            b = text_of(w)
            if a is not None and (b is None or subsequence(TOKEN.findall(a), TOKEN.findall(b))):
                run.probe("swallowed_ok")
                return
        if name == "stack" and o[0] == "exc" and w[0] == "exc":
            return
        raise world.Violation("partial-result:" + op[0], f"{real} at {fired} during {op[0]}: {world.diff_text(w, o)}")

    def client(k):
        def body():
            with core.quiet():
                t = core.CURRENT.current_task() if core.CURRENT else None
            for x in plan["threads"][k]:
                op = x[:3]
                for inj in x[3]:
                    o, fired = attempt(op, inj, t)
                    with core.quiet():
                        core.note(f"{k}:{o[0]}:{fired}")
                        judge(op, inj, fired, o)
                o, fired = attempt(op, None, t)
                with core.quiet():
                    core.note(f"{k}:{o[0]}")
                    judge(op, None, None, o)
                    if x[3]:
                        run.probe("repeated")
                    elif multi:
                        run.probe("other_thread_exact")
        return body

    if sum(len(x[3]) for t in plan["threads"] for x in t) >= 150:
        run.probe("storm")
    bodies = [c11.guard(client(k)) for k in range(len(plan["threads"]))]
    if multi:
        env.instrument(plan["grain"], inject=True, support=plan["support"])
        res, _ = run.simulate(bodies, plan["sched"])
        if run.switches:
            run.probe("threads_overlapped")
    else:
        env.instrument(None, inject=True, support=plan["support"])
        res = [b() for b in bodies]
    core.instrument(env.codes + env.support, None)
    for r in res:
        if isinstance(r, world.Violation):
            raise r
    for n, v in nodes.items():
        if world.walk(v) != shots[n]:
            raise world.Violation("document-damaged", f"document {n}: {world.diff_text(shots[n], world.walk(v))}")
    for n, d in enumerate(data):
        if c11.image(d) != images[n]:
            raise world.Violation("input-damaged", f"input {n}: {world.diff_text(images[n], c11.image(d))}")
    run.mix(sorted((k, world.short(v)) for k, v in want.items()))


def observe_raw(env, data, op, node):
    """As ops.observe; the comparable image is taken with the normal stack."""
    return ops.observe(env, data, op, node)


def points(env, data, op, node, support):
    def fn():
        env.instrument(None, inject=True, support=support)
        with core.Solo() as s:
            ops.observe(env, data, op, node)
        return s.count
    return world.isolated(fn)


def text_of(o):
    if o[0] != "ok":
        return None
    v = o[1]
    if isinstance(v, tuple):
        v = v[-1]
    return v if isinstance(v, str) else None


def subsequence(a, b):
    it = iter(b)
    return all(x in it for x in a)
