"""C09: fields this version does not know are ignored everywhere."""
import copy

from .. import adf, clients, core, faults, world

ID = "C09"
RUNS = {"quick": 2600, "thorough": 120000}
MUST_PROBE = ["threads_overlapped", "top_level", "attrs_field", "node_field", "mark_field", "many"]


def gen(rng, i, tier):
    docs, ex = [], []
    for n in range(rng.choice([1, 1, 2])):
        d = adf.gen_doc(rng)
        if rng.random() < 0.25:
            d = faults.add_unknown(rng, d, rng.randrange(1, 3))
        docs.append(d)
        els = [(e, m) for e, m, p in adf.elements(d) if "#u" not in e and adf.known(e, m)]
        p = rng.choice([0.05, 0.3, 1.0])
        mine = [faults.gen_extra(rng, e, m) for e, m in els if rng.random() < p]
        if rng.random() < 0.3 and mine:  # the same new field everywhere
            key, val = mine[0]["key"], mine[0]["val"]
            probe = [x for x in mine if x["attrs"] == mine[0]["attrs"]]
            if key not in ("attrs", "text", "version", "content", "marks"):
                for x in probe:
                    spec_safe(docs[-1], x, key, val)
        ex += [dict(x, doc=n) for x in mine]
    s = clients.gen_sched(rng)
    kinds = ["tree", "dict", "md", "mdi", "sub", "before"]
    threads = [[[rng.choice(kinds), rng.randrange(len(docs)), rng.getrandbits(16)] for _ in range(rng.choice([1, 2, 3]))] for _ in range(s.pop("nt"))]
    return dict(s, docs=docs, extras=ex, threads=threads, warn=rng.random() < 0.3)


def spec_safe(doc, x, key, val):
    e, m, p = adf.by_id(doc)[x["id"]]
    spec = adf.MARKS[e["type"]][0] if m else adf.A[e["type"]][0]
    if x["attrs"] and key in (spec or {}):
        return
    x["key"], x["val"] = key, val


def do(env, kind, d, r):
    if d.get("type") in adf.MARKS and d.get("type") not in adf.A:
        node = env.api.parse_mark(d)
    else:
        node = env.api.NodeDoc.from_dict(d) if d.get("type") == "doc" and r % 2 else env.api.parse_node(d)
    if kind == "tree":
        with core.quiet():
            return world.walk(node)
    if kind == "dict":
        return adf.freeze(node.to_dict())
    if kind == "md":
        return node.to_markdown()
    return node.to_markdown(ignore_error=True)


def execute(plan, env, run):
    if not plan["docs"]:
        return
    world.attach_sink(env)
    env.settings.WARN_UNIMPLEMENTED_TYPE = plan["warn"]
    rich = [faults.apply_extra(d, [x for x in plan["extras"] if x["doc"] == n]) for n, d in enumerate(plan["docs"])]
    work, want = [], {}
    for t in plan["threads"]:
        mine = []
        for kind, n, r in t:
            n %= len(rich)
            plain, ext = plan["docs"][n], rich[n]
            i = plain["#"]
            use = ext
            if kind == "before":  # an old-version document, next to new ones
                use, kind = plain, ["tree", "dict", "md", "mdi"][r % 4]
            if kind == "sub":
                els = [e["#"] for e, m, p in adf.elements(plain) if not m and "#u" not in e and "#" in e]
                i = els[r % len(els)]
                kind = ["tree", "dict", "md", "mdi"][r // 7 % 4]
            a = adf.clean(adf.by_id(plain)[i][0])
            b = adf.clean(adf.by_id(use)[i][0])
            key = (n, i, kind)
            if key not in want:
                want[key] = world.isolated(lambda: quietly(env, kind, a, r))
            mine.append((kind, b, r, key))
        work.append(mine)
    got = []

    def client(k):
        def body():
            for kind, data, r, key in work[k]:
                o = world.outcome(lambda: do(env, kind, data, r), image=lambda v: v)
                core.note(f"{k}:{o[0]}")
                got.append((kind, key, o))
        return body

    clients.run_clients(env, run, plan, [client(k) for k in range(len(work))])
    for kind, key, o in got:
        run.calls += 1
        if o != want[key]:
            ex = [(x["id"], x["key"], "attrs" if x["attrs"] else "element") for x in plan["extras"] if x["doc"] == key[0]]
            raise world.Violation("extra-field:" + kind, f"extra fields {ex[:6]}: {world.diff_text(want[key], o)}")
    for x in plan["extras"]:
        run.fault("extra_field")
        ids = adf.by_id(plan["docs"][x["doc"]])
        if x["id"] in ids:
            e, m, p = ids[x["id"]]
            run.probe("top_level" if p is None else "attrs_field" if x["attrs"] else "mark_field" if m else "node_field")
    if len(plan["extras"]) > 20:
        run.probe("many")
    run.mix([(key, world.short(o)) for kind, key, o in got])


def quietly(env, kind, data, r):
    world.attach_sink(env)
    return world.outcome(lambda: do(env, kind, copy.deepcopy(data), r), image=lambda v: v)
