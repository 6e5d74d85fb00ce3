"""C10: one warning per skipped element, switchable at run time."""
import copy

from .. import adf, clients, core, faults, world
from . import c11

ID = "C10"
RUNS = {"quick": 2600, "thorough": 120000}
MUST_PROBE = ["threads_overlapped", "on", "off", "toggled_during", "sink_fault", "reenter", "repeat_type", "mid_toggle", "failed_parse", "interrupted"]
EXC = ["KeyboardInterrupt", "SystemExit", "MemoryError"]
SINK = ["slow", "enospc", "eio", "broken", "closed", "encode", "reenter"]


def gen(rng, i, tier):
    docs = []
    for n in range(rng.choice([1, 2, 3])):
        d = adf.gen_doc(rng, size=rng.choice([3, 8, 20]))
        if rng.random() < 0.9:
            d = faults.add_unknown(rng, d, rng.choice([1, 2, 4, 8]), marks=rng.choice([0, 0.4, 0.8]))
        if rng.random() < 0.3:  # one type, many times
            t = rng.choice(adf.UNKNOWN_NODES)
            for e, m, p in adf.elements(d):
                if "#u" in e and not m:
                    e["type"] = t
        docs.append(d)
    bad = []  # the same documents, damaged so that parsing them fails
    for d in docs:
        els = [(e, m, p) for e, m, p in adf.elements(d) if adf.known(e, m) and "#" in e and "#u" not in e]
        els = [x for x in els if not x[1] or adf.A[x[2]["type"]][4]]
        f = faults.gen_malformed(rng, *rng.choice(els[len(els) // 2:]))
        bad.append(faults.apply_malformed(d, [f]) if f else d)
    s = clients.gen_sched(rng)
    nt = s.pop("nt")
    p_bad = rng.choice([0, 0, 0.2])
    p_int = rng.choice([0, 0, 0, 0.25]) if nt == 1 else 0
    p_set = rng.choice([0, 0.15, 0.4])
    toggler = rng.random() < 0.5  # which threads may switch: all, or only the first
    threads = []
    for k in range(nt):
        t = []
        for _ in range(rng.choice([1, 2, 3, 6]) if nt > 1 else rng.choice([2, 4, 8, 20])):
            if rng.random() < p_set and (k == 0 or toggler):
                t.append(["set", rng.randrange(2), 0])
            elif rng.random() < p_bad:
                t.append(["bad", rng.randrange(len(docs)), rng.getrandbits(16)])
            elif rng.random() < p_int:
                t.append(["int:" + rng.choice(EXC), rng.randrange(len(docs)), rng.getrandbits(30)])
            else:
                t.append([rng.choice(["doc", "doc", "node", "sub", "render"]), rng.randrange(len(docs)), rng.getrandbits(16)])
        threads.append(t)
    sink = {}
    if rng.random() < 0.5:
        kinds = rng.sample(SINK, rng.randrange(1, 4))
        for k in range(1, 40):
            if rng.random() < 0.4:
                sink[str(k)] = rng.choice(kinds)
    if nt == 1 and rng.random() < 0.25:
        sink[str(rng.randrange(1, 6))] = "toggle"  # the handler itself switches warnings off
    return dict(s, docs=docs, bad=bad, threads=threads, warn=rng.random() < 0.75, sink=sink, level=rng.choice(["DEBUG", "WARNING"]), re=rng.randrange(len(docs)))


def execute(plan, env, run):
    import logging
    if not plan["docs"]:
        return
    sink = world.attach_sink(env, plan["sink"])
    logging.getLogger("atlas_doc_parser").setLevel(plan["level"])
    env.settings.WARN_UNIMPLEMENTED_TYPE = plan["warn"]
    clean = [adf.clean(d) for d in plan["docs"]]
    hist = []  # (seq, kind, ...)
    seq = [0]
    logs = []  # (seq, thread, depth, level, message)
    me = {"cur": None}
    nested = {}

    def tick():
        seq[0] += 1
        return seq[0]

    def who():
        s = core.CURRENT
        t = s.current_task() if s is not None else None
        return t.tid if t is not None else 0

    def record_emit(record):
        logs.append((tick(), who(), nested.get(who(), 0), record.levelname, record.getMessage(), record.levelno))

    orig = sink.emit

    def emit(record):
        with core.quiet():
            record_emit(record)
        orig(record)
    sink.emit = emit

    def set_to(v):
        env.settings.WARN_UNIMPLEMENTED_TYPE = bool(v)
        with core.quiet():
            hist.append((tick(), "set", bool(v)))
            core.note(f"SET {v}")

    def reentry():
        k = who()
        nested[k] = nested.get(k, 0) + 1
        try:
            env.api.NodeDoc.from_dict(clean[plan["re"] % len(clean)])
        finally:
            nested[k] -= 1
    sink.reentry = reentry

    def toggle():
        set_to(False)
        run.probe("mid_toggle")
    sink.toggle = toggle
    calls = []

    def client(k):
        def body():
            for op, n, r in plan["threads"][k]:
                if op == "set":
                    with core.quiet():
                        a = tick()
                    set_to(n)
                    with core.quiet():
                        calls.append(("set", k, a, seq[0], bool(n)))
                    continue
                n %= len(clean)
                d, src = clean[n], plan["docs"][n]
                with core.quiet():
                    if op == "sub":
                        ns = [e for e, m, p in adf.elements(src) if not m and "#u" not in e]
                        src = ns[r % len(ns)]
                        d = adf.clean(src)
                    elif op == "bad":
                        d = adf.clean(plan["bad"][n % len(plan["bad"])])
                    a = tick()
                if op.startswith("int:"):
                    with core.quiet():
                        nth = 1 + r % max(1, points(env, d, plan))
                        env.instrument(None, inject=True, support=True)
                    with core.Solo(nth, lambda: c11.make(op[4:])) as solo:
                        o = world.outcome(lambda: env.api.parse_node(d), image=lambda v: v)
                    with core.quiet():
                        core.instrument(env.codes + env.support, None)
                        if solo.fired:
                            run.fault("interrupt:" + op[4:])
                        calls.append(("int" if solo.fired else "node", k, a, tick(), src, o))
                        core.note(f"{k}:{o[0]}")
                    continue
                if op in ("doc", "render") and d.get("type") == "doc":
                    fn = lambda: env.api.NodeDoc.from_dict(d)
                else:
                    fn = lambda: env.api.parse_node(d)
                o = world.outcome(fn, image=lambda v: v)
                with core.quiet():
                    b = tick()
                    calls.append((op, k, a, b, src, o))
                    core.note(f"{k}:{o[0]}")
                if op == "render" and o[0] == "ok":
                    node = o[1]
                    with core.quiet():
                        a = tick()
                    node.to_markdown(ignore_error=True)
                    node.to_dict()
                    with core.quiet():
                        calls.append(("quiet", k, a, tick(), None, None))
        return body

    clients.run_clients(env, run, plan, [client(k) for k in range(len(plan["threads"]))])
    sets = [(plan["warn"], -1, 0)] + [(v, s - 1, s) for s, _, v in hist]
    # a thread's set may still be taking effect anywhere inside its own interval
    spans = sorted((a, b, v) for c, k, a, b, v in [x for x in calls if x[0] == "set"])
    for op, k, a, b, src, o in [c for c in calls if c[0] != "set"]:
        run.calls += 1
        # the library's warnings; diagnostics of other levels are its own business
        mine = [(l[3], l[4], l[5]) for l in logs if l[1] == k and l[2] == 0 and a < l[0] < b and l[5] == 30]
        if op == "quiet":
            if any("unimplement" in m.lower() for _, m, _ in mine):
                raise world.Violation("warning-while-rendering", f"rendering logged {mine[0][1]!r}")
            continue
        if op in ("bad", "int"):
            run.probe("failed_parse" if op == "bad" else "interrupted")
        elif o[0] != "ok":
            raise world.Violation("parse-raises", f"parsing raised {o[1]}: {o[2]} (log faults {plan['sink'] and sorted(set(plan['sink'].values()))})")
        want_tree = adf.freeze(adf.canon(adf.clean(src))) if op not in ("bad", "int") else None
        if want_tree and adf.freeze(o[1].to_dict()) != want_tree:
            raise world.Violation("result-affected", world.diff_text(want_tree, adf.freeze(o[1].to_dict())))
        want = [t for t, cat in adf.warnings_of(adf.clean(src))]
        others = [x for x in spans if x[0] < b and x[1] > a]
        mid = [h for h in hist if a < h[0] < b and not any(x[0] <= h[0] <= x[1] for x in spans)]
        state = plan["warn"]
        for s, _, v in hist:
            if s < a:
                state = v
        ws = [m for lv, m, no in mine]
        if others:
            run.probe("toggled_during")
            if not matches(want, ws, subset=True):
                raise world.Violation("warnings", f"skipped {want[:8]}, logged {ws[:8]} while the switch changed")
        elif mid:
            # switched off by the handler while it handled a warning
            upto = sum(1 for l in logs if l[1] == k and l[2] == 0 and l[5] == 30 and a < l[0] < b and l[0] < mid[0][0])
            exp = len(ws) == (upto if state else 0)
            if not exp or not matches(want, ws, subset=True):
                raise world.Violation("switch-not-immediate", f"switched off after warning {upto} of {len(want)}, {len(ws)} were logged")
        elif state:
            run.probe("on")
            if len(want) > len(set(want)):
                run.probe("repeat_type")
            if not matches(want, ws, subset=op in ("bad", "int")):
                raise world.Violation("warnings", f"warnings on, skipped {sorted(want)[:8]} ({len(want)}), logged {ws[:8]} ({len(ws)})")
        else:
            run.probe("off")
            if ws:
                raise world.Violation("warnings-while-off", f"warnings off, logged {ws[:4]}")
    for f, c in sink.fired.items():
        run.fault("log:" + f, c)
        run.probe("sink_fault", c)
        if f == "reenter":
            run.probe("reenter", c)
    run.fault("switch", len(hist))
    run.mix([(l[1:4]) for l in logs])
    run.mix([(c[0], c[1], c[5] is not None and c[5][0], c[4] and len(repr(c[4]))) for c in calls if c[0] != "set"])


def points(env, d, plan):
    def fn():
        world.attach_sink(env)
        env.settings.WARN_UNIMPLEMENTED_TYPE = True
        env.instrument(None, inject=True, support=True)
        with core.Solo() as s:
            world.outcome(lambda: env.api.parse_node(copy.deepcopy(d)))
        return s.count
    return world.isolated(fn)


def matches(types, msgs, subset=False):
    """Whether the messages name the types one to one (Kuhn's matching)."""
    if len(msgs) > len(types) or (not subset and len(msgs) != len(types)):
        return False
    adj = [[j for j, t in enumerate(types) if t in m] for m in msgs]
    owner = {}

    def place(i, seen):
        for j in adj[i]:
            if j in seen:
                continue
            seen.add(j)
            if j not in owner or place(owner[j], seen):
                owner[j] = i
                return True
        return False
    return all(place(i, set()) for i in range(len(msgs)))
