"""C03: a result depends only on its input, never on what was processed
before."""
import copy
import os
import random
import sys
import time

from .. import adf, boot, core, faults, ops, world
from . import c11, c15

ID = "C03"
RUNS = {"quick": 1500, "thorough": 60000}
MUST_PROBE = ["interrupted", "switch", "mutated", "time_zone", "kept_node", "twist", "exc_outcome", "long", "stack", "slow_log", "burst"]
EXC = ["KeyboardInterrupt", "SystemExit", "MemoryError", "RecursionError"]


def gen(rng, i, tier):
    docs = [ops.mixed_doc(rng, size=rng.choice([2, 3, 8, 16])) for _ in range(rng.choice([1, 2, 3]))]
    for _ in range(rng.choice([1, 2, 3])):
        docs.append(ops.twist(rng, rng.choice(docs)))
    long = rng.random() < (0.03 if tier == "quick" else 0.06)
    n = rng.choice([300, 700]) if long else rng.choice([4, 8, 16, 40])
    if long and tier == "thorough" and rng.random() < 0.3:
        n = 5000
    kinds = ops.OPS if rng.random() < 0.5 else [rng.choice(ops.OPS) for _ in range(3)]
    rs = [rng.getrandbits(16) for _ in range(3 if not long else 2)]
    events = []
    for _ in range(n):
        x = rng.random()
        if x < 0.62:
            events.append([rng.choice(kinds), rng.randrange(len(docs)), rng.choice(rs)])
        elif x < 0.72:
            events.append(["kept:" + rng.choice(["md", "mdi", "dict", "json", "again", "parse"]), rng.randrange(len(docs)), 1])
        elif x < 0.80:
            events.append(["int:" + rng.choice(kinds), rng.randrange(len(docs)), rng.choice(rs), rng.choice(EXC), rng.getrandbits(30)])
        elif x < 0.83:
            events.append(["stack", rng.randrange(len(docs)), rng.randrange(8, 120)])
        elif x < 0.86:
            events.append(["set", rng.randrange(2), 0])
        elif x < 0.90:
            events.append(["mut", rng.getrandbits(24), 0])
        elif x < 0.93:
            events.append(["tz", rng.randrange(len(c15.TZS)), rng.choice([0, 3600, -10**8])])
        elif x < 0.96:
            events.append(["churn", rng.getrandbits(24), rng.choice([1, 4])])
        elif x < 0.985:
            events.append(["drop", 0, 0])
        else:
            events.append(["burst", rng.randrange(len(docs)), rng.choice([20, 60, 200]), rng.choice(EXC), rng.getrandbits(30)])
    sink = {str(rng.randrange(1, 60)): rng.choice(["slow", "enospc", "broken", "closed"]) for _ in range(rng.choice([0, 0, 4]))}
    return {"docs": docs, "events": events, "warn": rng.random() < 0.6, "same_input": rng.random() < 0.5, "sink": sink, "long": long}


def execute(plan, env, run):
    if not plan["docs"]:
        return
    data = [adf.clean(d) for d in plan["docs"]]
    calls = []
    for e in plan["events"]:
        k = e[0].split(":")[-1]
        if k in ops.OPS:
            calls.append([k, e[1], e[2]])
    want = ops.alone_many(env, data, calls)
    sink = world.attach_sink(env, plan["sink"])
    env.settings.WARN_UNIMPLEMENTED_TYPE = plan["warn"]
    kept, handed = {}, []
    if len(plan["events"]) >= 300:
        run.probe("long")
    run.probe("twist")
    counts = {}
    bursts = 0

    def check(op, o, what):
        run.calls += 1
        w = want[ops.key(op, data)]
        if o[0] == "exc":
            run.probe("exc_outcome")
        if o != w:
            raise world.Violation("history:" + op[0], f"event {n}, {what} {op[0]} of document {op[1] % len(data)}: {world.diff_text(w, o)}")

    for n, e in enumerate(plan["events"]):
        kind = e[0]
        if kind in ops.OPS:
            op = [kind, e[1], e[2]]
            src = data if plan["same_input"] else copy.deepcopy(data)
            check(op, ops.observe(env, src, op), "")
        elif kind.startswith("kept:"):
            op = [kind[5:], e[1] % len(data), e[2]]
            if op[1] not in kept:
                try:
                    kept[op[1]] = env.api.NodeDoc.from_dict(data[op[1]])
                except Exception:
                    continue
            run.probe("kept_node")
            check(op, ops.observe(env, data, op, kept[op[1]]), "kept")
            if op[0] == "dict":
                try:
                    handed.append(kept[op[1]].to_dict())
                except Exception:
                    pass
        elif kind.startswith("int:"):
            op = [kind[4:], e[1], e[2]]
            k = ops.key(op, data)
            if k not in counts:
                counts[k] = count_points(env, data, op)
            nth = 1 + e[4] % max(1, counts[k])
            env.instrument(None, inject=True, support=True)
            with core.Solo(nth, lambda: c11.make(e[3])) as s:
                o = ops.observe(env, data, op)
            core.instrument(env.codes + env.support, None)
            if s.fired:
                run.fault("interrupt:" + e[3])
                run.probe("interrupted")
            else:
                check(op, o, "uninterrupted")
        elif kind == "stack":
            d = data[e[1] % len(data)]
            with_stack(e[2], lambda: env.api.parse_node(d).to_markdown(ignore_error=True))
            run.fault("stack_limit")
            run.probe("stack")
        elif kind == "set":
            env.settings.WARN_UNIMPLEMENTED_TYPE = bool(e[1])
            run.fault("switch")
            run.probe("switch")
        elif kind == "mut" and handed:
            c11.mutate(random.Random(e[1]), handed[e[1] % len(handed)])
            run.fault("mutation")
            run.probe("mutated")
        elif kind == "tz":
            c15._set_tz(c15.TZS[e[1] % len(c15.TZS)])
            boot.CLOCK.now = max(0.0, boot.CLOCK.now + e[2])
            run.fault("time_zone_change")
            run.probe("time_zone")
        elif kind == "churn":
            rng = random.Random(e[1])
            for _ in range(e[2]):
                other = adf.clean(ops.mixed_doc(rng, size=rng.choice([2, 8])))
                world.outcome(lambda: env.api.NodeDoc.from_dict(other).to_markdown(ignore_error=bool(e[1] & 1)))
        elif kind == "burst" and bursts < 3:  # the same call, interrupted over and over
            bursts += 1
            op = [["md", "parse", "mdi"][e[4] % 3], e[1], e[2]]
            k = ops.key(op, data)
            if k not in counts:
                counts[k] = count_points(env, data, op)
            env.instrument(None, inject=True, support=True)
            rng = random.Random(e[4])
            for _ in range(e[2]):
                with core.Solo(1 + rng.randrange(max(1, counts[k])), lambda: c11.make(e[3])) as s:
                    ops.observe(env, data, op)
                if s.fired:
                    run.fault("interrupt:" + e[3])
            core.instrument(env.codes + env.support, None)
            run.probe("burst")
        elif kind == "drop":
            kept.clear()
            handed.clear()
        core_note(run, n, kind)
    for f, c in sink.fired.items():
        run.fault("log:" + f, c)
        if f == "slow":
            run.probe("slow_log", c)
    run.mix(sorted((k, world.short(v)) for k, v in want.items()))


def core_note(run, n, kind):
    run.mix((n, kind))


def depth():
    f = sys._getframe()
    n = 0
    while f is not None:
        n += 1
        f = f.f_back
    return n


def with_stack(extra, fn):
    """Run fn with only `extra` more stack frames available."""
    old = sys.getrecursionlimit()
    try:
        sys.setrecursionlimit(depth() + 3 + extra)
        return fn()
    except RecursionError as e:
        return e
    except Exception as e:
        return e
    finally:
        sys.setrecursionlimit(old)


def count_points(env, data, op):
    def fn():
        world.attach_sink(env)
        env.instrument(None, inject=True, support=True)
        with core.Solo() as s:
            ops.observe(env, copy.deepcopy(data), op)
        return s.count
    return world.isolated(fn)
