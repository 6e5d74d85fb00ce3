"""C05: with errors ignored only the failing nodes are missing."""
from .. import adf, clients, core, faults, world

ID = "C05"
RUNS = {"quick": 2600, "thorough": 120000}
MUST_PROBE = ["threads_overlapped", "deep_fault", "boom", "content", "healthy", "sub", "unknown"]


def gen(rng, i, tier):
    docs, fs = [], []
    for n in range(rng.choice([1, 1, 2])):
        d = adf.gen_doc(rng)
        if rng.random() < 0.2:
            d = faults.add_unknown(rng, d, rng.randrange(1, 4))
        docs.append(d)
        k = rng.choice([0, 1, 1, 1, 2, 2, 3, 6])
        fs += [dict(f, doc=n) for f in clients.gen_faults(rng, d, k)]
    s = clients.gen_sched(rng)
    ops = ["mdi", "mdi", "mdi", "sub"]
    threads = [[[rng.choice(ops), rng.randrange(len(docs)), rng.getrandbits(16)] for _ in range(rng.choice([1, 2, 3]))] for _ in range(s.pop("nt"))]
    return dict(s, docs=docs, faults=fs, threads=threads, shared=rng.random() < 0.7, warn=rng.random() < 0.3)


def prepare(plan, env, run):
    """Damaged documents, parsed; conversion failures armed."""
    world.attach_sink(env)
    env.settings.WARN_UNIMPLEMENTED_TYPE = plan["warn"]
    booms = clients.Booms(env)
    out = []
    for n, doc in enumerate(plan["docs"]):
        fs = [f for f in plan["faults"] if f["doc"] == n]
        bad = faults.apply_all(doc, fs)
        try:
            node = env.api.NodeDoc.from_dict(adf.clean(bad))
        except Exception as e:
            raise world.Violation("parse-raises", f"document {n} does not parse: {type(e).__name__}: {e}")
        objs = {}
        for e, o, m, p in clients.pair(bad, node):
            if "#" in e:
                objs[e["#"]] = o
        data = set()
        for f in fs:
            if f["kind"] == "boom":
                if f["id"] in objs:
                    booms.add(objs[f["id"]], (n, f["id"]), f["arg"])
            else:
                data.add(f["id"])
        out.append((doc, bad, node, objs, data, clients.owners(doc)))
    return out, booms


def failing_ids(docs, n, booms):
    doc, bad, node, objs, data, own = docs[n]
    return {i for i in data if i in own} | {own[i] for (m, i) in booms.fired if m == n and i in own}


def pick(op, docs, failing):
    """Which element an operation renders: the document, or one node of it."""
    kind, n, r = op
    doc, bad, node, objs, data, own = docs[n]
    if kind != "sub":
        return node, doc["#"]
    ids = sorted(e["#"] for e, m, p in adf.elements(faults.prune_failing(doc, failing)) if not m and "#" in e and "#u" not in e and e["#"] in objs)
    ids = [i for i in ids if i not in failing]
    i = ids[r % len(ids)]
    return objs[i], i


def execute(plan, env, run):
    if not plan["docs"]:
        return
    docs, booms = prepare(plan, env, run)
    got = []
    # which node a "sub" renders must not be (inside) a failing one
    armed = {n: {docs[n][5][f["id"]] for f in plan["faults"] if f["doc"] == n and f["id"] in docs[n][5]} for n in range(len(docs))}

    def client(k):
        def body():
            for op in plan["threads"][k]:
                op = [op[0], op[1] % len(docs), op[2]]
                with core.quiet():
                    node, i = pick(op, docs, armed[op[1]])
                o = world.outcome(lambda: node.to_markdown(ignore_error=True), image=lambda v: v)
                core.note(f"{k}:{o[0]}")
                got.append((k, op, i, o))
        return body

    clients.run_clients(env, run, plan, [client(k) for k in range(len(plan["threads"]))])
    booms_at, booms.at = booms.at, {}
    want = {}
    for k, op, i, o in got:
        n = op[1]
        failing = failing_ids(docs, n, booms)
        run.calls += 1
        key = (n, i)
        if key not in want:
            # a node that failed by exception counts only where it was reached
            pruned = faults.prune_failing(docs[n][0], failing)
            el = adf.by_id(pruned)[i][0]
            want[key] = world.isolated(lambda: strict(env, adf.clean(el)))
        w = want[key]
        if w[0] != "ok":
            raise world.Violation("healthy-raises", f"document without failing nodes does not render: {w[1]}: {w[2]}")
        if o != w:
            desc = [(f["kind"], f["arg"], f["id"]) for f in plan["faults"] if f["doc"] == n]
            raise world.Violation(
                "raises" if o[0] == "exc" else "wrong-text",
                f"ignore_error=True, failing {desc}: {world.diff_text(w, o)}")
        if not failing:
            run.probe("healthy")
        if op[0] == "sub":
            run.probe("sub")
    for f in plan["faults"]:
        if f["kind"] == "boom":
            run.fault("boom:" + f["arg"], booms.fired.get((f["doc"], f["id"]), 0))
            run.probe("boom", booms.fired.get((f["doc"], f["id"]), 0))
        else:
            run.fault(f["kind"])
            if depth_of(plan["docs"][f["doc"]], f["id"]) >= 4:
                run.probe("deep_fault")
    if any("#u" in e for d in plan["docs"] for e, m, p in adf.elements(d)):
        run.probe("unknown")
    run.mix([(k, op, world.short(o)) for k, op, i, o in got])


def depth_of(doc, i):
    def rec(d, n):
        if d.get("#") == i:
            return n
        for c in d["content"] if isinstance(d.get("content"), list) else []:
            if isinstance(c, dict):
                x = rec(c, n + 1)
                if x is not None:
                    return x
    return rec(doc, 0) or 0


def strict(env, data):
    world.attach_sink(env)
    return world.outcome(lambda: env.api.parse_node(data).to_markdown(), image=lambda v: v)
