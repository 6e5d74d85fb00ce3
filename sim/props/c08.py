"""C08: malformed known elements make parsing fail instead of being dropped."""
import copy

from .. import adf, clients, core, faults, world

ID = "C08"
RUNS = {"quick": 3000, "thorough": 150000}
MUST_PROBE = ["threads_overlapped", "deep", "healthy", "unknown", "in_unknown", "mark"]


def gen(rng, i, tier):
    docs, fs = [], []
    for n in range(rng.choice([1, 1, 2, 3])):
        d = adf.gen_doc(rng)
        if rng.random() < 0.5:
            d = faults.add_unknown(rng, d, rng.randrange(1, 4))
        if rng.random() < 0.3:
            ex = [faults.gen_extra(rng, e, m) for e, m, p in adf.elements(d) if "#u" not in e and adf.known(e, m) and rng.random() < 0.2]
            d = faults.apply_extra(d, ex)
        docs.append(d)
        k = rng.choice([0, 1, 1, 1, 1, 2, 3])
        els = [(e, m, p) for e, m, p in adf.elements(d) if adf.known(e, m) and "#" in e and "#u" not in e]
        els = [x for x in els if not x[1] or adf.A[x[2]["type"]][4]]  # marks where marks are kept
        rng.shuffle(els)
        if rng.random() < 0.5:  # evenly over the types instead of over the elements
            seen = {}
            for x in els:
                seen.setdefault(x[0]["type"], x)
            els = sorted(seen.values(), key=lambda x: rng.random())
        for e, m, p in els[:k]:
            f = faults.gen_malformed(rng, e, m, p)
            if f:
                fs.append(dict(f, doc=n))
    s = clients.gen_sched(rng)
    threads = [[[rng.choice(["parse", "parse", "sub"]), rng.randrange(len(docs)), rng.getrandbits(16)] for _ in range(rng.choice([1, 2, 3]))] for _ in range(s.pop("nt"))]
    return dict(s, docs=docs, faults=fs, threads=threads, warn=rng.random() < 0.5)


def execute(plan, env, run):
    if not plan["docs"]:
        return
    world.attach_sink(env)
    env.settings.WARN_UNIMPLEMENTED_TYPE = plan["warn"]
    work = []
    for t in plan["threads"]:
        mine = []
        for kind, n, r in t:
            n %= len(plan["docs"])
            # the whole document, or one of the elements that hold a fault
            el = plan["docs"][n]
            if kind == "sub":
                ns = [e for e, m, p in adf.elements(el) if not m and "#u" not in e]
                el = ns[r % len(ns)]
            inside = [f for f in plan["faults"] if f["doc"] == n and f["id"] in adf.by_id(el) and effective(plan["docs"][n], f, el)]
            bad = faults.apply_malformed(el, inside)
            mine.append((n, bad, inside, r))
        work.append(mine)
    got = []

    def client(k):
        def body():
            for n, bad, inside, r in work[k]:
                with core.quiet():
                    data = adf.clean(bad)
                    cls = env.api.NodeDoc if data.get("type") == "doc" and r % 2 else None
                try:
                    v = cls.from_dict(data) if cls else env.api.parse_node(data)
                    with core.quiet():
                        o = ("ok", adf.freeze(v.to_dict()) if not inside else None)
                except core.SimAbort:
                    raise
                except BaseException as e:
                    o = ("exc", type(e).__name__, e)
                core.note(f"{k}:{o[0]}")
                got.append((n, bad, inside, r, o))
        return body

    clients.run_clients(env, run, plan, [client(k) for k in range(len(work))])
    for n, bad, inside, r, o in got:
        run.calls += 1
        desc = [(f["kind"], f.get("arg"), f["id"]) for f in inside]
        if inside:
            if o[0] == "ok":
                raise world.Violation("dropped", f"malformed {desc} in document {n}: parsing succeeded")
            if isinstance(o[2], env.exc.UnimplementedTypeError):
                raise world.Violation("taken-for-unknown", f"malformed {desc} reported as unknown type: {o[2]}")
            if not isinstance(o[2], Exception):
                raise world.Violation("not-an-error", f"malformed {desc} raised {o[1]}")
        else:
            run.probe("healthy")
            if o[0] == "exc":
                raise world.Violation("healthy-raises", f"nothing malformed in document {n}: {o[1]}: {o[2]}")
            want = adf.freeze(adf.canon(adf.clean(bad)))
            if o[1] != want:
                raise world.Violation("healthy-differs", world.diff_text(want, o[1]))
    from .c05 import depth_of
    for f in plan["faults"]:
        run.fault("malformed:" + f["kind"])
        if depth_of(plan["docs"][f["doc"]], f["id"]) >= 4:
            run.probe("deep")
        ids = adf.by_id(plan["docs"][f["doc"]])
        if f["id"] in ids and ids[f["id"]][1]:
            run.probe("mark")
    for d in plan["docs"]:
        for e, m, p in adf.elements(d):
            if "#u" in e:
                run.probe("unknown")
                if isinstance(e.get("content"), list) and e["content"]:
                    run.probe("in_unknown")
    run.mix([(n, len(inside), o[:2]) for n, bad, inside, r, o in got])


def effective(doc, f, root):
    """Whether the fault really makes the element under root malformed."""
    ids = adf.by_id(doc)
    if f["id"] not in ids:
        return False
    e, m, p = ids[f["id"]]
    if f["kind"] in ("junk", "empty", "notype"):
        if e is root:
            return f["kind"] == "notype" and root.get("type") != "doc"
        if m or isinstance(p.get("content"), list):
            return True
    return True
