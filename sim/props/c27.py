"""C27: the library can be used again in the middle of its own calls (from a
signal handler, a finaliser, a log handler)."""
import copy
import math

from .. import adf, core, ops, world
from . import c04, c26

ID = "C27"
RUNS = {"quick": 2500, "thorough": 100000}
MUST_PROBE = ["nested", "nested_same_node", "nested_same_document", "nested_twice", "nested_in_nested", "from_log_handler", "nested_fails", "outer_fails", "young", "raised_afterwards", "nested_warned", "in_parse", "in_render", "in_serialise"]
REAL = ["atlas_doc_parser (working tree)"]
STUB = ["arrival of signals and finalisers (seeded, at the points where CPython runs them: function entry, loop back edge, return of a C function)", "clock", "log destination (simulated sink)"]


def gen(rng, i, tier):
    docs = [ops.mixed_doc(rng, size=rng.choice([2, 4, 8, 16]), unknown=0.5) for _ in range(rng.choice([1, 1, 2]))]
    if rng.random() < 0.3:
        docs.append(ops.twist(rng, docs[0]))
    kinds = ops.OPS if rng.random() < 0.6 else [rng.choice(ops.OPS) for _ in range(2)]

    def hit(top):
        op = ops.gen_op(rng, len(docs), kinds)
        if rng.random() < 0.5:
            op = list(top)
        return {
            "gap": int(math.exp(rng.uniform(0, math.log(4000)))), "op": op,
            "raise": rng.choice(["KeyboardInterrupt", "SystemExit"]) if rng.random() < 0.1 else None,
        }
    calls = []
    for _ in range(rng.choice([1, 2, 3, 6])):
        op = ops.gen_op(rng, len(docs), kinds)
        calls.append({"op": op, "hits": [hit(op)] + [dict(hit(op), gap=rng.choice([1, 5, 50, 300])) for _ in range(rng.choice([0, 0, 1, 3, 10]))] if rng.random() < 0.85 else []})
    return {
        "docs": docs, "calls": calls, "shared": rng.random() < 0.7, "same_input": rng.random() < 0.5, "warm": rng.choice([0, 0, 2]), "warn": rng.random() < 0.8,
        "support": rng.random() < 0.6, "sink": {str(rng.randrange(1, 8)): "reenter" for _ in range(rng.choice([0, 0, 1, 2]))}, "log_op": ops.gen_op(rng, len(docs), kinds),
    }


def execute(plan, env, run):
    data = [adf.clean(d) for d in plan["docs"]]
    if not data or not plan["calls"]:
        return
    given = copy.deepcopy(data)
    N = len(data)
    env.settings.WARN_UNIMPLEMENTED_TYPE = plan["warn"]

    world.attach_sink(env)
    can = {}
    if plan["shared"]:
        for n in range(N):
            can[n] = world.isolated(lambda: world.outcome(lambda: env.api.NodeDoc.from_dict(copy.deepcopy(given[n])), image=lambda v: None))[0] == "ok"
    expected = {}

    def expect(op):
        k = ops.key(op, data)
        if k not in expected:
            def fn():
                sink = world.attach_sink(env)
                node = None
                if can.get(k[1]) and op[0] not in ("sub", "mark"):
                    node = env.api.NodeDoc.from_dict(copy.deepcopy(given[k[1]]))
                    del sink.records[:]
                return ops.observe(env, copy.deepcopy(given), op, node), list(sink.records)
            expected[k] = world.isolated(fn)
        return expected[k]

    for c in plan["calls"]:
        expect(c["op"])
        for h in c["hits"]:
            expect(h["op"])
    expect(plan["log_op"])
    # from here on in this process
    sink = world.attach_sink(env)
    nodes = {n: env.api.NodeDoc.from_dict(data[n]) for n in can if can[n]}
    images = {n: world.walk(x) for n, x in nodes.items()}
    for c in plan["calls"][:plan["warm"]]:
        ops.observe(env, data, c["op"])
    if not plan["warm"]:
        run.probe("young")
    del sink.records[:]
    sink.n = 0
    sink.plan = dict(plan["sink"])
    log = []
    depth = [0]

    def call(op):
        """One use of the library; what it returned and logged itself."""
        depth[0] += 1
        start = len(sink.records)
        node = nodes.get(op[1] % N) if op[0] not in ("sub", "mark") else None
        with core.quiet():
            mine = data if plan["same_input"] else copy.deepcopy(given)
        try:
            o = ops.observe(env, mine, op, node)
        finally:
            depth[0] -= 1
        mine = sink.records[start:]
        del sink.records[start:]
        return o, mine

    def task():
        s = core.CURRENT
        return s.tasks[0]

    def arm(hits):
        t = task()
        t.inj = (t.inj_count + hits[0]["gap"], lambda: fire(hits)) if hits else None

    def fire(hits):
        h = hits[0]
        where = task().fired
        o, mine = call(h["op"])
        log.append(("nested", h["op"], o, mine, stack[-1], where))
        if depth[0] > 1:
            run.probe("nested_in_nested")
        run.probe({"parse": "in_parse", "sub": "in_parse", "md": "in_render", "mdi": "in_render", "dict": "in_serialise", "json": "in_serialise"}.get(stack[-1][0], "nested"))
        if h["raise"]:
            return c04.make(h["raise"])
        arm(hits[1:])
        return None

    def reentry():
        o, mine = call(plan["log_op"])
        log.append(("log", plan["log_op"], o, mine, stack[-1], "the log handler"))
        run.probe("from_log_handler")
    sink.reentry = reentry
    stack = []
    env.instrument(None, inject=True, support=plan["support"])
    limit = 1_000_000
    for c in plan["calls"]:
        del log[:], sink.records[:]
        stack[:] = [c["op"]]

        def body():
            arm(c["hits"])
            try:
                return call(c["op"])
            finally:
                t = task()
                t.inj = None
        r, failure = c26.inside(body, limit)
        run.calls += 1 + len(log)
        if failure:
            raise world.Violation(failure[0], f"{c['op'][0]} of document {c['op'][1] % N}, used again in its middle ({[x[1][0] for x in log]} done): {failure[1]}")
        fired = [x for x in log if x[0] == "nested"]
        stop = any(h["raise"] for h in c["hits"]) and bool(fired)
        for kind, op, o, mine, outer, where in log:
            run.probe("nested")
            run.fault("call_inside_call" if kind == "nested" else "call_from_log_handler")
            if ops.key(op, data) == ops.key(outer, data):
                run.probe("nested_same_document")
                if (op[1] % N) in nodes:
                    run.probe("nested_same_node")
            if o[0] == "exc":
                run.probe("nested_fails")
            if mine:
                run.probe("nested_warned")
            check(op, o, mine, expect(op), f"inside {outer[0]} of document {outer[1] % N} (at {where})", stop, data)
        if len(fired) > 1:
            run.probe("nested_twice")
        if log and r[0][0] == "exc":
            run.probe("outer_fails")
        if stop:
            run.probe("raised_afterwards")
        check(c["op"], r[0], r[1], expect(c["op"]), f"with {len(log)} calls in its middle ({[(x[1][0], x[5]) for x in log][:4]})", stop, data)
        run.mix((world.short(r), len(log), [x[5] for x in log]))
    core.instrument(env.codes + env.support, None)
    for n, x in nodes.items():
        if world.walk(x) != images[n]:
            raise world.Violation("document-changed", f"document {n}: {world.diff_text(images[n], world.walk(x))}")
    if adf.freeze(data) != adf.freeze(given):
        raise world.Violation("input-changed", world.diff_text(adf.freeze(given), adf.freeze(data)))


def check(op, o, mine, want, where, stopped, data):
    if stopped and o[0] == "exc" and o[1] in ("KeyboardInterrupt", "SystemExit"):
        return
    what = f"{op[0]} of document {op[1] % len(data)}, {where}"
    if o != want[0]:
        raise world.Violation("wrong-result:" + op[0], f"{what}: {world.diff_text(want[0], o)}")
    if mine != want[1]:
        raise world.Violation("wrong-warnings", f"{what}: {world.diff_text(want[1], mine)}")
