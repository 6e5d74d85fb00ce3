"""C07: unknown node and mark types are skipped exactly, at any depth."""
import copy
import random

from .. import adf, clients, core, faults, world

ID = "C07"
RUNS = {"quick": 2600, "thorough": 120000}
MUST_PROBE = ["threads_overlapped", "unknown_node", "unknown_mark", "root_unknown", "nested", "sink_fault"]
SINK = ["slow", "enospc", "eio", "broken", "closed", "encode"]


def gen(rng, i, tier):
    docs = []
    for n in range(rng.choice([1, 1, 2])):
        d = adf.gen_doc(rng)
        docs.append(faults.add_unknown(rng, d, rng.choice([1, 2, 4, 8]), marks=rng.choice([0, 0.4, 0.8])))
    s = clients.gen_sched(rng)
    kinds = ["tree", "dict", "md", "mdi", "sub", "root"]
    threads = [[[rng.choice(kinds), rng.randrange(len(docs)), rng.getrandbits(24)] for _ in range(rng.choice([1, 2, 3]))] for _ in range(s.pop("nt"))]
    sink = {str(k): rng.choice(SINK) for k in range(1, 30)} if rng.random() < 0.3 else {}
    return dict(s, docs=docs, threads=threads, warn=rng.random() < 0.6, sink=sink)


def do(env, d, op):
    kind, n, r = op
    if kind == "root":
        return None
    node = env.api.NodeDoc.from_dict(d) if d.get("type") == "doc" and r % 2 else env.api.parse_node(d)
    if kind == "tree":
        with core.quiet():
            return world.walk(node)
    if kind == "dict":
        return adf.freeze(node.to_dict())
    if kind == "md":
        return node.to_markdown()
    return node.to_markdown(ignore_error=True)


def execute(plan, env, run):
    if not plan["docs"]:
        return
    sink = world.attach_sink(env, plan["sink"])
    env.settings.WARN_UNIMPLEMENTED_TYPE = plan["warn"]
    work, want = [], {}
    for t in plan["threads"]:
        mine = []
        for op in t:
            kind, n, r = op[0], op[1] % len(plan["docs"]), op[2]
            doc = plan["docs"][n]
            rng = random.Random(r)
            el = doc
            if kind == "sub":
                el = rng.choice([e for e, m, p in adf.elements(doc) if not m and "#u" not in e])
                kind = rng.choice(["tree", "dict", "md", "mdi"])
            data = adf.clean(el)
            pruned = adf.clean(adf.prune_unknown(el))
            key = (n, kind, el["#"])
            if kind == "root":
                us = [(e, m) for e, m, p in adf.elements(doc) if "#u" in e]
                if not us:
                    continue
                e, m = rng.choice(us)
                data = adf.clean(e)
                want_v = None
                mine.append(("root", [kind, n, r], data, m, None))
                continue
            if key not in want:
                want[key] = world.isolated(lambda: quietly(env, pruned, [kind, n, r]))
            mine.append((kind, [kind, n, r], data, None, key))
        work.append(mine)
    got = []

    def client(k):
        def body():
            for kind, op, data, m, key in work[k]:
                if kind == "root":
                    fn = env.api.parse_mark if m else env.api.parse_node
                    with core.quiet():
                        err = None
                    try:
                        fn(data)
                        o = ("ok", None)
                    except core.SimAbort:
                        raise
                    except BaseException as e:
                        o = ("exc", type(e).__name__, e)
                else:
                    o = world.outcome(lambda: do(env, data, op), image=lambda v: v)
                core.note(f"{k}:{o[0]}")
                got.append((kind, op, data, m, key, o))
        return body

    clients.run_clients(env, run, plan, [client(k) for k in range(len(work))])
    for kind, op, data, m, key, o in got:
        run.calls += 1
        if kind == "root":
            run.probe("root_unknown")
            cat = "mark" if m else "node"
            if o[0] == "ok":
                raise world.Violation("root-accepted", f"an unknown {cat} type {data['type']!r} was parsed")
            e = o[2]
            if not isinstance(e, env.exc.UnimplementedTypeError):
                raise world.Violation("root-error", f"unknown {cat} type {data['type']!r}: raised {o[1]}: {e}")
            if e.type_value != data["type"] or e.category != cat:
                raise world.Violation("root-error", f"unknown {cat} type {data['type']!r}: error names {e.type_value!r} ({e.category})")
            if repr(data["type"]) not in str(e) and data["type"] not in str(e):
                raise world.Violation("root-error", f"message does not name the type {data['type']!r}: {e}")
            continue
        if o != want[key]:
            raise world.Violation(
                "skip:" + kind, f"{kind} of element {key[2]} of document {key[0]}: {world.diff_text(want[key], o)}")
    for d in plan["docs"]:
        for e, m, p in adf.elements(d):
            if "#u" in e:
                run.fault("unknown_mark" if m else "unknown_node")
                if p is not None and p["type"] != "doc":
                    run.probe("nested")
    for f, c in sink.fired.items():
        run.fault("log:" + f, c)
        run.probe("sink_fault", c)
    run.mix([(op, world.short(o)) for kind, op, data, m, key, o in got])


def quietly(env, data, op):
    world.attach_sink(env)
    return world.outcome(lambda: do(env, copy.deepcopy(data), op), image=lambda v: v)
