"""C11: parsing never modifies or keeps hold of the caller's data."""
import copy
import random

from .. import adf, clients, core, faults, ops, world

ID = "C11"
RUNS = {"quick": 2400, "thorough": 110000}
MUST_PROBE = ["threads_overlapped", "failed_parse", "interrupted_parse", "aliased", "mutated", "mark_root", "mutate_while_render"]
EXC = ["KeyboardInterrupt", "SystemExit", "MemoryError"]


def gen(rng, i, tier):
    docs = [ops.mixed_doc(rng, size=rng.choice([3, 8, 20]), malformed=0.2) for _ in range(rng.choice([1, 1, 2]))]
    if rng.random() < 0.06:
        adf.enlarge(rng, docs[0], text=0.2)
    s = clients.gen_sched(rng, single=0.4)
    nt = s.pop("nt")
    threads = []
    for k in range(nt):
        t = []
        for _ in range(rng.choice([1, 2, 3])):
            inj = [rng.choice(EXC), rng.getrandbits(30)] if rng.random() < 0.25 else None
            t.append([rng.choice(["doc", "node", "sub", "mark"]), rng.randrange(len(docs)), rng.getrandbits(16), inj])
        threads.append(t)
    alias = [[rng.randrange(len(docs)), rng.getrandbits(16)] for _ in range(rng.choice([0, 0, 1, 3]))]
    muts = [rng.getrandbits(32) for _ in range(rng.choice([1, 4, 12, 40]))]
    return dict(s, docs=docs, threads=threads, alias=alias, muts=muts, warn=rng.random() < 0.3, shared=rng.random() < 0.6)


def containers(x, out):
    """All dicts and lists inside x, each once (x may alias itself)."""
    if isinstance(x, (dict, list)) and not any(o is x for o in out):
        out.append(x)
        for v in (x.values() if isinstance(x, dict) else x):
            containers(v, out)
    return out


def mutate(rng, data):
    """One change somewhere inside data."""
    cs = containers(data, [])
    c = rng.choice(cs)
    if isinstance(c, dict):
        k = rng.randrange(5)
        if k == 0 and c:
            c.pop(rng.choice(sorted(c, key=repr)))
        elif k == 1 and c:
            key = rng.choice(sorted(c, key=repr))
            if not isinstance(c[key], (dict, list)):
                c[key] = rng.choice(["changed", 4711, None, [], {"type": "text", "text": "changed"}])
            else:
                c[key] = rng.choice(["changed", 4711, None])
        elif k == 2:
            c["added%d" % rng.randrange(9)] = {"type": "text", "text": "added"}
        elif k == 3:
            c["type"] = "changed"
        else:
            for key in list(c):
                if isinstance(c[key], str):
                    c[key] = c[key] + "!"
    else:
        k = rng.randrange(5)
        if k == 0 and c:
            c.pop(rng.randrange(len(c)))
        elif k == 1:
            c.append({"type": "text", "text": "added"})
        elif k == 2:
            c.reverse()
            c.insert(0, 4711)
        elif k == 3:
            c.clear()
        elif c:
            c[rng.randrange(len(c))] = "changed"


def image(x, seen=None, memo=None):
    """Ordered, type-strict image of data including which parts are the same
    object."""
    memo = {} if memo is None else memo
    if isinstance(x, (dict, list)):
        if id(x) in memo:
            return ("@", memo[id(x)])
        memo[id(x)] = len(memo)
        if isinstance(x, dict):
            return ("d", type(x).__name__) + tuple((k, image(v, seen, memo)) for k, v in x.items())
        return ("l", type(x).__name__) + tuple(image(v, seen, memo) for v in x)
    return (type(x).__name__, repr(x))


def parts(x, out):
    """The containers of x in traversal order, as objects."""
    if isinstance(x, (dict, list)) and not any(o is x for o in out[-400:]):
        out.append(x)
        for v in (x.values() if isinstance(x, dict) else x):
            parts(v, out)
    return out


def same_objects(before, x):
    now = parts(x, [])
    return len(now) == len(before) and all(a is b for a, b in zip(before, now))


def clean_aliased(doc, picks, run=None):
    """Data for the library in which some parts are one and the same object."""
    data = adf.clean(doc)
    for r in picks:
        rng = random.Random(r)
        cs = [c for c in containers(data, []) if isinstance(c, dict) and isinstance(c.get("content"), list)]
        if not cs:
            continue
        c = rng.choice(cs)
        kind = rng.randrange(3)
        if kind == 0 and c["content"]:
            c["content"].append(c["content"][rng.randrange(len(c["content"]))])
        elif kind == 1:
            ts = [x for x in c["content"] if isinstance(x, dict) and x.get("type") == "text"]
            if len(ts) > 1:
                ts[0].setdefault("marks", [])
                ts[1]["marks"] = ts[0]["marks"]
        else:
            with_attrs = [x for x in containers(data, []) if isinstance(x, dict) and isinstance(x.get("attrs"), dict)]
            groups = {}
            for x in with_attrs:
                groups.setdefault(str(x.get("type")), []).append(x)
            gs = [g for k, g in sorted(groups.items()) if len(g) > 1]
            if gs:
                g = rng.choice(gs)
                g[1]["attrs"] = g[0]["attrs"]
        if run is not None:
            run.probe("aliased")
    return data


def target(data, kind, r):
    els = [(e, m) for e, m, p in adf.elements(data)]
    if kind == "mark":
        ms = [e for e, m in els if m]
        if ms:
            return "mark", ms[r % len(ms)]
    if kind in ("sub", "mark"):
        ns = [e for e, m in els if not m]
        return "node", ns[r % len(ns)]
    return kind, data


def parse(env, kind, d):
    if kind == "mark":
        return env.api.parse_mark(d)
    if kind == "doc":
        return env.api.NodeDoc.from_dict(d)
    return env.api.parse_node(d)


def show(node, kind):
    w = world.walk(node)
    if kind == "mark":
        return (w, world.outcome(lambda: adf.freeze(node.to_dict()), image=lambda v: v))
    return (w, world.outcome(lambda: adf.freeze(node.to_dict()), image=lambda v: v),
            world.outcome(lambda: node.to_markdown(ignore_error=True), image=lambda v: v))


def points(env, data, kind, r, codes=None):
    """How many injectable points parsing passes (measured in a fork)."""
    def fn():
        world.attach_sink(env)
        k, d = target(data, kind, r)
        env.instrument(None, inject=True)
        with core.Solo() as s:
            try:
                parse(env, k, d)
            except Exception:
                pass
        return s.count
    return world.isolated(fn)


def execute(plan, env, run):
    if not plan["docs"]:
        return
    world.attach_sink(env)
    env.settings.WARN_UNIMPLEMENTED_TYPE = plan["warn"]
    datas = [clean_aliased(d, [r for n, r in plan["alias"] if n == k], run) for k, d in enumerate(plan["docs"])]
    work = []
    for t in plan["threads"]:
        mine = datas if plan["shared"] else copy.deepcopy(datas)
        w = []
        for kind, n, r, inj in t:
            n %= len(datas)
            nth = 1 + inj[1] % max(1, points(env, mine[n], kind, r)) if inj else 0
            w.append((kind, n, r, inj, nth))
        work.append((mine, w))
    roots = [m for m, _ in work]
    before = [image(m) for m in roots]
    parsed = []
    inject = any(x[3] for _, w in work for x in w)

    def client(k):
        mine, w = work[k]

        def body():
            for kind, n, r, inj, nth in w:
                with core.quiet():
                    kd, d = target(mine[n], kind, r)
                    t = core.CURRENT.current_task() if core.CURRENT else None
                    if inj and t is not None:
                        t.inj_count = 0
                        t.fired = None
                        t.inj = (nth, lambda: make(inj[0]))
                solo = core.Solo(nth, lambda: make(inj[0])) if inj and t is None else None
                if solo:
                    solo.__enter__()
                try:
                    v = parse(env, kd, d)
                    ok = True
                except core.SimAbort:
                    raise
                except BaseException as e:
                    ok, v = False, type(e).__name__
                finally:
                    if solo:
                        solo.__exit__()
                with core.quiet():
                    if t is not None:
                        t.inj = None
                    fired = (solo.fired if solo else t.fired if t else None) if inj else None
                    if fired:
                        run.fault("interrupt:" + inj[0])
                        run.probe("interrupted_parse")
                    core.note(f"{k}:{ok}")
                    if ok:
                        parsed.append((k, kd, v, show(v, kd)))
                        if kd == "mark":
                            run.probe("mark_root")
                    elif not fired:
                        run.probe("failed_parse")
                    run.calls += 1
                    if image(mine[n]) != before_of(k, n):
                        now = image(mine[n])
                        raise world.Violation("input-modified", f"parsing ({'ok' if ok else v}) changed the caller's data: {world.diff_text(before_of(k, n), now)}")
                    if not same_objects(objects[k][n], mine[n]):
                        raise world.Violation("input-modified", f"parsing ({'ok' if ok else v}) replaced parts of the caller's data by copies")
        return body

    def before_of(k, n):
        return singles[k][n]

    objects = [[parts(x, []) for x in m] for m in roots]
    singles = [[image(x) for x in m] for m in roots]
    bodies = [guard(client(k)) for k in range(len(work))]
    if len(bodies) == 1 or not plan["sched"]:
        if inject:
            env.instrument(None, inject=True)
        res = [b() for b in bodies]
    else:
        env.instrument(plan["grain"], inject=inject)
        res, _ = run.simulate(bodies, plan["sched"])
        if run.switches:
            run.probe("threads_overlapped")
    core.instrument(env.codes + env.support, None)
    for r in res:
        if isinstance(r, world.Violation):
            raise r
    if [image(m) for m in roots] != before:
        raise world.Violation("input-modified", "the caller's data differs after all parsing ended")
    # later changes to the input, while the documents are in use
    def mutator():
        for s in plan["muts"]:
            rng = random.Random(s)
            for m in roots:
                if m:
                    x = rng.choice(m)
                    mutate(rng, x)
            run.fault("mutation")
            sim = core.CURRENT
            t = sim.current_task() if sim else None
            if t is not None:
                sim.step(t, 0xB)

    def reader():
        for k, kd, v, want in parsed:
            now = (world.walk(v),) if False else None
            o = outcomes(v, kd)
            if o != want[1:]:
                return world.Violation("input-kept", f"changed with the caller's later change to its input: {world.diff_text(want[1:], o)}")

    if parsed and plan["sched"] and len(work) > 1:
        env.instrument(plan["grain"])
        sim = core.Sim(core.make_policy(dict(plan["sched"], seed=plan["sched"]["seed"] ^ 0x5A5A) if "seed" in plan["sched"] else {"kind": "walk", "seed": 1, "p": 0.05}, 2))
        box = []
        sim.spawn(mutator)
        sim.spawn(lambda: box.append(reader()))
        sim.run()
        run.mix(sim.crc)
        run.steps += sim.total
        core.instrument(env.codes + env.support, None)
        run.probe("mutate_while_render")
        if box and box[0]:
            raise box[0]
    else:
        mutator()
    run.probe("mutated")
    for k, kd, v, want in parsed:
        now = show(v, kd)
        if now != want:
            raise world.Violation("input-kept", f"changed with the caller's later change to its input: {world.diff_text(want, now)}")
    run.mix([world.short(p[3]) for p in parsed])


def outcomes(v, kd):
    a = world.outcome(lambda: adf.freeze(v.to_dict()), image=lambda x: x)
    if kd == "mark":
        return (a,)
    return (a, world.outcome(lambda: v.to_markdown(ignore_error=True), image=lambda x: x))


def guard(fn):
    def body():
        try:
            return fn()
        except world.Violation as e:
            return e
    return body


def make(name):
    import builtins
    return getattr(builtins, name)("injected")
