"""C01: concurrent callers each get exactly what they would get alone."""
import copy

from .. import adf, core, faults, ops, world

ID = "C01"
RUNS = {"quick": 800, "thorough": 60000}
MUST_PROBE = ["threads_overlapped", "shared_node", "shared_input", "private", "exc_outcome"]


def gen(rng, i, tier):
    nt = rng.choice([2, 2, 3, 4])
    docs = [ops.mixed_doc(rng, size=rng.choice([3, 8, 16])) for _ in range(rng.randrange(1, 3))]
    if rng.random() < 0.4:
        docs.append(ops.twist(rng, docs[0]))
    mode = rng.choice(["private", "shared_input", "shared_node"])
    kinds = ops.OPS if rng.random() < 0.5 else [rng.choice(ops.OPS) for _ in range(2)]
    if mode == "shared_node" and rng.random() < 0.7:
        kinds = ["md", "mdi", "dict", "parse", "again"]
    threads = [[ops.gen_op(rng, len(docs), kinds) for _ in range(rng.choice([1, 1, 2, 4]))] for _ in range(nt)]
    if rng.random() < 0.3:
        threads = [copy.deepcopy(threads[0]) for _ in range(nt)]
    grain = rng.choice(["op", "op", "line", "call"])
    support = rng.random() < 0.3
    if len(repr(docs)) > 15000:  # the finest grain is for documents one can step through
        grain, support = "line" if grain == "op" else grain, False
    est = {"op": 8000, "line": 1500, "call": 400}[grain]
    return {
        "docs": docs, "mode": mode, "threads": threads, "grain": grain, "support": support,
        "warm": rng.random() < 0.4, "warn": rng.random() < 0.7, "sched": core.gen_policy(rng, est),
    }


def execute(plan, env, run):
    data = [adf.clean(d) for d in plan["docs"]]
    if not data:
        return
    all_ops = [op for t in plan["threads"] for op in t]
    want = ops.alone_many(env, data, all_ops)
    world.attach_sink(env)
    env.settings.WARN_UNIMPLEMENTED_TYPE = plan["warn"]
    nodes = {}
    if plan["mode"] == "shared_node":
        for n, d in enumerate(data):
            try:
                nodes[n] = env.api.NodeDoc.from_dict(copy.deepcopy(d))
            except Exception:
                pass
    if plan["warm"]:
        for op in all_ops[:3]:
            ops.observe(env, data, op)
    env.instrument(plan["grain"], support=plan["support"])
    got = [[] for _ in plan["threads"]]

    def client(k):
        mine = data if plan["mode"] != "private" else copy.deepcopy(data)

        def body():
            for op in plan["threads"][k]:
                node = None
                if plan["mode"] == "shared_node" and op[0] not in ("sub", "mark"):
                    node = nodes.get(op[1] % len(data))
                o = ops.observe(env, mine, op, node)
                core.note(f"{k}:{o[0]}")
                got[k].append(o)
        return body

    results, sim = run.simulate([client(k) for k in range(len(plan["threads"]))], plan["sched"])
    core.instrument(env.codes + env.support, None)
    for k, t in enumerate(plan["threads"]):
        for op, o in zip(t, got[k]):
            run.calls += 1
            w = want[ops.key(op, data)]
            if o != w:
                raise world.Violation(
                    "wrong-result:" + op[0],
                    f"thread {k}, {op[0]} of document {op[1] % len(data)} ({plan['mode']}): {world.diff_text(w, o)}")
            if o[0] == "exc":
                run.probe("exc_outcome")
    run.probe(plan["mode"])
    if run.switches:
        run.probe("threads_overlapped")
    run.probe("grain_" + plan["grain"])
    run.mix([[world.short(o) for o in g] for g in got])
