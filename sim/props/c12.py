"""C12: documents are immutable: rendering and serialising never change or
expose them."""
import copy
import json
import random

from .. import adf, clients, core, faults, ops, world
from . import c05, c11

ID = "C12"
RUNS = {"quick": 2200, "thorough": 100000}
MUST_PROBE = ["threads_overlapped", "mutated", "failed_render", "interrupted", "boom", "mark_call", "repeat"]
EXC = ["KeyboardInterrupt", "SystemExit", "MemoryError"]


def gen(rng, i, tier):
    docs, fs = [], []
    for n in range(rng.choice([1, 1, 2])):
        d = ops.mixed_doc(rng, size=rng.choice([3, 8, 20]), malformed=0)
        docs.append(d)
        if rng.random() < 0.35:
            fs += [dict(f, doc=n) for f in clients.gen_faults(rng, d, rng.choice([1, 2]), boom=1.0) if f["kind"] == "boom"]
    s = clients.gen_sched(rng, single=0.45)
    nt = s.pop("nt")
    kinds = ["md", "mdi", "dict", "dict", "json", "mutate", "eq", "sub_md", "sub_dict", "mark", "again"]
    if rng.random() < 0.5:
        kinds = rng.sample(kinds, 4) + ["dict", "mutate"]
    threads = []
    for k in range(nt):
        t = []
        for _ in range(rng.choice([2, 4, 8]) if nt > 1 else rng.choice([4, 10, 30])):
            inj = [rng.choice(EXC), rng.getrandbits(30)] if rng.random() < 0.1 else None
            t.append([rng.choice(kinds), rng.randrange(len(docs)), rng.getrandbits(24), inj])
        threads.append(t)
    return dict(s, docs=docs, faults=fs, threads=threads)


def call(env, node, kind, r):
    if kind == "md":
        return node.to_markdown()
    if kind == "mdi":
        return node.to_markdown(ignore_error=True)
    if kind == "json":
        return json.dumps(node.to_dict())
    if kind == "again":
        return world.walk(env.api.parse_node(node.to_dict()))
    if kind == "eq":
        return bool(node == node)
    if kind == "mark":
        return node.to_markdown(["abc", "a|b", "x y"][r % 3])
    return node.to_dict()


def subnode(objs, kind, r):
    if kind == "mark":
        ms = [o for o, m in objs if m]
        return ms[r % len(ms)] if ms else None
    ns = [o for o, m in objs if not m]
    return ns[r % len(ns)]


def execute(plan, env, run):
    if not plan["docs"]:
        return
    world.attach_sink(env)
    env.settings.WARN_UNIMPLEMENTED_TYPE = False
    docs, booms = c05.prepare(dict(plan, warn=False), env, run)
    objs, shots, exact = [], [], []
    for doc, bad, node, by, data, own in docs:
        # every parsed element, for calls on parts of a document
        objs.append([(o, m) for e, o, m, p in clients.pair(bad, node)])
        shots.append(world.walk(node))
        exact.append(world.isolated(lambda: world.outcome(lambda: adf.freeze(node.to_dict()), image=lambda x: x)))
        if exact[-1][0] == "ok" and exact[-1][1] != adf.freeze(adf.canon(adf.clean(bad))):
            raise world.Violation("serialisation", world.diff_text(adf.freeze(adf.canon(adf.clean(bad))), exact[-1][1]))
    want = {}
    dry = set(x[0] for t in plan["threads"] for x in t)

    def key_of(op):
        kind, n, r, inj = op
        n %= len(docs)
        if kind in ("sub_md", "sub_dict", "mark"):
            cnt = sum(1 for o, m in objs[n] if m == (kind == "mark"))
            return (kind, n, r % cnt if cnt else None, r % 3 if kind == "mark" else 0)
        return (kind, n, 0, 0)

    def resolve(op):
        kind, n, r, inj = op
        n %= len(docs)
        if kind in ("sub_md", "sub_dict", "mark"):
            o = subnode(objs[n], kind, r)
            return o, {"sub_md": "mdi", "sub_dict": "dict", "mark": "mark"}[kind]
        return docs[n][2], kind

    img = lambda v: adf.freeze_ordered(v) if isinstance(v, dict) else v
    count = {}
    for t in plan["threads"]:
        for op in t:
            if op[0] == "mutate":
                continue
            k = key_of(op)
            if k[2] is None or k in want:
                continue
            o, kind = resolve(op)

            def fn():
                env.instrument(None, inject=True)
                with core.Solo() as s:
                    v = world.outcome(lambda: call(env, o, kind, op[2]), image=img)
                return v, s.count
            want[k], count[k] = world.isolated(fn)
    held = []  # data handed out: [object, image when last legitimately changed]

    def client(k):
        def body():
            for op in plan["threads"][k]:
                kind, n, r, inj = op
                if kind == "mutate":
                    with core.quiet():
                        mine = [h for h in held if h[2] == k]
                        if mine:
                            h = mine[r % len(mine)]
                            for j in range(1 + r % 4):
                                c11.mutate(random.Random(r + j), h[0])
                            h[1] = adf.freeze_ordered(h[0])
                            run.fault("mutation")
                            run.probe("mutated")
                    continue
                ky = key_of(op)
                if ky[2] is None:
                    continue
                o, kd = resolve(op)
                with core.quiet():
                    t = core.CURRENT.current_task() if core.CURRENT else None
                    nth = 1 + inj[1] % max(1, count[ky]) if inj else 0
                    if inj and t is not None:
                        t.inj_count, t.fired = 0, None
                        t.inj = (nth, lambda: c11.make(inj[0]))
                solo = core.Solo(nth, lambda: c11.make(inj[0])) if inj and t is None else None
                if solo:
                    solo.__enter__()
                raw = []
                try:
                    got = world.outcome(lambda: raw.append(call(env, o, kd, r)) or raw[0], image=img)
                finally:
                    if solo:
                        solo.__exit__()
                with core.quiet():
                    if t is not None:
                        t.inj = None
                    fired = (solo.fired if solo else t.fired) if inj else None
                    run.calls += 1
                    core.note(f"{k}:{got[0]}")
                    if fired:
                        run.fault("interrupt:" + inj[0])
                        run.probe("interrupted")
                        continue
                    if got != want[ky]:
                        raise world.Violation("differs:" + kind, f"{kind} of document {n % len(docs)}: {world.diff_text(want[ky], got)}")
                    if got[0] == "exc":
                        run.probe("failed_render")
                    if kind == "mark":
                        run.probe("mark_call")
                    if got[0] == "ok" and isinstance(raw[0], dict):
                        held.append([raw[0], got[1], k])
        return body

    bodies = [c11.guard(client(k)) for k in range(len(plan["threads"]))]
    inject = any(x[3] for t in plan["threads"] for x in t)
    if len(bodies) == 1 or not plan["sched"]:
        if inject:
            env.instrument(None, inject=True)
        res = [b() for b in bodies]
    else:
        env.instrument(plan["grain"], inject=inject)
        res, _ = run.simulate(bodies, plan["sched"])
        if run.switches:
            run.probe("threads_overlapped")
    core.instrument(env.codes + env.support, None)
    for r in res:
        if isinstance(r, world.Violation):
            raise r
    booms.at = {}
    for hid, c in booms.fired.items():
        run.fault("boom", c)
        run.probe("boom", c)
    if sum(len(t) for t in plan["threads"]) > len(want):
        run.probe("repeat")
    for n, d in enumerate(docs):
        now = world.walk(d[2])
        if now != shots[n]:
            raise world.Violation("document-changed", f"document {n}: {world.diff_text(shots[n], now)}")
        v = world.outcome(lambda: adf.freeze(d[2].to_dict()), image=lambda x: x)
        if v != exact[n]:
            raise world.Violation("serialisation-changed", f"document {n}: {world.diff_text(exact[n], v)}")
    for h in held:
        if adf.freeze_ordered(h[0]) != h[1]:
            raise world.Violation("returned-data-changed", f"data returned earlier changed: {world.diff_text(h[1], adf.freeze_ordered(h[0]))}")
    run.mix([world.short(w) for w in want.values()])
