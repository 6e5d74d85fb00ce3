"""C06: strict rendering raises on any unconvertible node."""
from .. import adf, clients, core, faults, world
from . import c05

ID = "C06"
RUNS = {"quick": 2600, "thorough": 120000}
MUST_PROBE = ["threads_overlapped", "deep_fault", "raised", "healthy", "unrendered_fault", "mark_boom"]


def gen(rng, i, tier):
    p = c05.gen(rng, i, tier)
    # several failing nodes at once hide a swallowed one: mostly a single one
    if rng.random() < 0.7:
        keep = {}
        for f in p["faults"]:
            keep.setdefault(f["doc"], f)
        p["faults"] = list(keep.values())
    for f in p["faults"]:
        # conversion errors of ordinary kinds, also ones code tends to catch
        if f["kind"] == "boom" and rng.random() < 0.4:
            f["arg"] = rng.choice(["AttributeError", "KeyError", "TypeError", "ValueError", "NotImplementedError", "UnimplementedTypeError"])
    for t in p["threads"]:
        for op in t:
            op[0] = {"mdi": "md", "sub": "submd"}[op[0]]
            if rng.random() < 0.15:
                op[0] = "mdi"  # an ignoring caller next to strict ones
    return p


def execute(plan, env, run):
    if not plan["docs"]:
        return
    docs, booms = c05.prepare(plan, env, run)
    got = []

    def client(k):
        def body():
            for op in plan["threads"][k]:
                kind, n, r = op[0], op[1] % len(docs), op[2]
                with core.quiet():
                    doc, bad, node, objs, data, own = docs[n]
                    i = doc["#"]
                    if kind == "submd":
                        ids = sorted(e["#"] for e, m, p in adf.elements(bad) if not m and "#" in e and e["#"] in objs)
                        i = ids[r % len(ids)]
                        node = objs[i]
                    fired0 = dict(booms.fired)
                if kind == "mdi":
                    o = world.outcome(lambda: node.to_markdown(ignore_error=True), image=lambda v: v)
                else:
                    o = world.outcome(lambda: node.to_markdown(), image=lambda v: v)
                core.note(f"{k}:{o[0]}")
                got.append((k, kind, n, i, o, fired0))
        return body

    clients.run_clients(env, run, plan, [client(k) for k in range(len(plan["threads"]))])
    booms.at = {}
    want = {}
    for k, kind, n, i, o, fired0 in got:
        if kind == "mdi":
            continue
        run.calls += 1
        doc, bad, node, objs, data, own = docs[n]
        el, elm, _ = adf.by_id(bad)[i]
        shown = adf.rendered_ids(el)
        inside = {e["#"] for e, m, p in adf.elements(el) if "#" in e}
        fs = [f for f in plan["faults"] if f["doc"] == n and f["id"] in inside]
        bad_data = [f for f in fs if f["kind"] != "boom" and f["id"] in shown]
        # an armed exception counts if this rendering met it
        armed = [f for f in fs if f["kind"] == "boom" and (n, f["id"]) in booms.fired and (own.get(f["id"]) in shown)]
        desc = [(f["kind"], f["arg"], f["id"]) for f in fs]
        if bad_data or armed:
            run.probe("raised")
            if o[0] != "exc":
                raise world.Violation("partial-text", f"strict rendering with failing {desc} returned {world.short(o[1])}")
            if not bad_data and o[1] not in names(armed):
                raise world.Violation("other-error", f"the conversion raised {sorted(names(armed))}, the caller got {o[1]}: {o[2]}")
            if any(adf.by_id(bad)[f["id"]][1] for f in armed if f["id"] in adf.by_id(bad)):
                run.probe("mark_boom")
        else:
            key = (n, i)
            if key not in want:
                healthy = adf.by_id(doc)[i][0] if i in adf.by_id(doc) else el
                if any(f["id"] in {e.get("#") for e, m, p in adf.elements(healthy)} for f in plan["faults"] if f["doc"] == n):
                    healthy = el
                want[key] = world.isolated(lambda: c05.strict(env, adf.clean(healthy)))
            if fs:
                run.probe("unrendered_fault")
            else:
                run.probe("healthy")
            if o != want[key]:
                raise world.Violation("healthy", f"nothing rendered fails ({desc}): {world.diff_text(want[key], o)}")
    for f in plan["faults"]:
        if f["kind"] == "boom":
            run.fault("boom:" + f["arg"], booms.fired.get((f["doc"], f["id"]), 0))
        else:
            run.fault(f["kind"])
        if c05.depth_of(plan["docs"][f["doc"]], f["id"]) >= 4:
            run.probe("deep_fault")
    run.mix([(k, kind, world.short(o)) for k, kind, n, i, o, f in got])


def names(armed):
    return {{"Custom": "CustomError"}.get(f["arg"], f["arg"]) for f in armed}
