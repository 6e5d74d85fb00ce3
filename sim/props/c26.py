"""C26: a process forked at any moment can use the library at once."""
import copy
import math
import os
import pickle
import random
import select
import signal
import warnings

from .. import adf, core, ops, world

ID = "C26"
RUNS = {"quick": 2000, "thorough": 60000}
MUST_PROBE = ["forked_mid_call", "forked_in_a_crowd", "forked_mid_parse", "forked_mid_render", "forked_young", "shared_node", "child_error", "child_warned", "forked_twice", "grandchild", "forked_after_failure"]
REAL = ["atlas_doc_parser (working tree)", "os.fork with CPython's and logging's own fork handlers", "one operating-system process per simulated worker"]
STUB = ["thread scheduling, locks and import locks (cooperative, seeded)", "clock", "log destination (simulated sink)"]
ASSUME = ["the library is imported before the fork: CPython's import locks are not fork-safe themselves"]


def gen(rng, i, tier):
    nt = rng.choice([1, 2, 2, 3, 3, 6])
    docs = [ops.mixed_doc(rng, size=rng.choice([3, 8, 16]), unknown=0.5) for _ in range(rng.choice([1, 2]))]
    if rng.random() < 0.5:
        docs.append(ops.mixed_doc(rng, size=4))  # one that only children see
    grain = rng.choice(["op", "line", "line", "call"])
    if len(repr(docs)) > 15000 and grain == "op":
        grain = "line"
    est = {"op": 8000, "line": 1500, "call": 400}[grain]
    threads = [[ops.gen_op(rng, len(docs) if rng.random() < 0.5 else 1) for _ in range(rng.choice([1, 2, 3]))] for _ in range(nt)]
    seen = sorted({o[1] for t in threads for o in t})
    forks = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        calls = [ops.gen_op(rng, len(docs)) for _ in range(rng.choice([1, 2]))]
        if rng.random() < 0.6:  # what another caller is at work on
            calls[0] = list(rng.choice(rng.choice(threads)))
        forks.append({"at": int(math.exp(rng.uniform(0, math.log(est * nt)))), "calls": calls, "again": rng.random() < 0.2, "flip": rng.random() < 0.2})
    sched = core.gen_policy(rng, est)
    if rng.random() < 0.25:  # a crowd: many callers in the middle of the same call
        k = rng.choice(["md", "mdi", "mdi", "parse", "dict", "again"])
        threads = [[[k, rng.randrange(len(docs)), rng.getrandbits(16)]] for _ in range(rng.choice([4, 6, 10]))]
        nt = len(threads)
        grain = "line"
        sched = {"kind": "walk", "seed": rng.getrandbits(48), "p": rng.choice([0.1, 0.3, 0.6])}
        for j, f in enumerate(forks):
            f["at"] = int(math.exp(rng.uniform(math.log(30), math.log(500 * nt))))
            f["calls"][0] = [k, rng.randrange(len(docs)), rng.getrandbits(16)]
    return {
        "docs": docs, "mode": rng.choice(["private", "shared_input", "shared_node"]), "threads": threads, "forks": sorted(forks, key=lambda f: f["at"]), "grain": grain,
        "warm": rng.choice([0, 0, 1, 3]), "warn": rng.random() < 0.8, "sched": sched,
        "stop": [rng.randrange(nt), int(math.exp(rng.uniform(0, math.log(2000)))), rng.choice(["KeyboardInterrupt", "MemoryError"])] if rng.random() < 0.25 else None,
    }


class At:
    """The other policy, with the forking thread called in at given steps."""

    def __init__(self, base, forker, points):
        self.base, self.forker, self.points = base, forker, sorted(points)

    def start(self, tids):
        return self.base.start([t for t in tids if t != self.forker] or tids)

    def decide(self, sim, t, loc):
        if t.tid == self.forker:
            if not sim._ready(but=t):
                return None
            return self.forced(sim, t, sim._ready(but=t))
        if self.points and sim.total >= self.points[0] and sim.tasks[self.forker].state == "ready":
            self.points.pop(0)
            return self.forker
        x = self.base.decide(sim, t, loc)
        return None if x == self.forker else x

    def forced(self, sim, t, ready):
        rest = [x for x in ready if x != self.forker]
        return self.base.forced(sim, t, rest or ready)


def inside(fn, limit):
    """Run fn on this thread as the only one there is; what it would wait for
    for ever is reported."""
    s = core.Sim(core.make_policy({"kind": "serial"}, 1), limit)
    t = core.Task(0, None, "")
    t.ident = core._real_ident()
    s.tasks, s.by_ident, s.cur = [t], {t.ident: t}, t
    core.CURRENT = s
    try:
        return fn(), s.failure
    except core.SimAbort:
        return None, s.failure
    finally:
        core.CURRENT = None


def use(env, sink, data, calls, nodes, limit):
    """The calls, each with the warnings it logged."""
    out = []
    for op in calls:
        del sink.records[:]
        node = nodes.get(op[1] % len(data)) if op[0] not in ("sub", "mark") else None
        o, failure = inside(lambda: ops.observe(env, data, op, node), limit)
        if failure:
            return out, failure
        out.append((o, list(sink.records)))
    return out, None


def child(env, sink, data, f, nodes, limit, depth=0):
    """fork() now; the child's report."""
    r, w = os.pipe()
    with core.quiet():  # fork handlers may wait for locks, nothing else
        pid = os.fork()
        if pid == 0:
            core.CURRENT = None
    if pid == 0:
        try:
            os.close(r)
            if f["flip"]:
                env.settings.WARN_UNIMPLEMENTED_TYPE = not env.settings.WARN_UNIMPLEMENTED_TYPE
            out = use(env, sink, data, f["calls"], nodes, limit)
            if f["again"] and not depth and out[1] is None:
                out = out + (child(env, sink, data, dict(f, flip=False), nodes, limit, 1),)
        except BaseException as e:
            import traceback
            out = ([], ("harness", traceback.format_exc()))
        try:
            b = pickle.dumps(out)
            while b:
                b = b[os.write(w, b):]
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    while True:
        if not select.select([r], [], [], 100)[0]:
            os.kill(pid, signal.SIGKILL)
            break
        b = os.read(r, 1 << 20)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st) and os.WTERMSIG(st) == 9:
        return ([], ("hang", "no answer"))
    if not data:
        sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
        return ([], ("hang", "no answer within the CPU limit") if sig == 24 else ("crash", f"status {st}"))
    return pickle.loads(data)


def execute(plan, env, run):
    from . import c04
    warnings.simplefilter("ignore", DeprecationWarning)  # about fork and threads
    data = [adf.clean(d) for d in plan["docs"]]
    if not data or not plan["threads"] or not all(plan["threads"]):
        return
    limit = 200_000 + 400 * len(repr(data))
    given = copy.deepcopy(data)

    def expect(op, warn):
        def fn():
            env.settings.WARN_UNIMPLEMENTED_TYPE = warn
            sink = world.attach_sink(env)
            node = None
            if (op[1] % len(data)) in nodes and op[0] not in ("sub", "mark"):
                node = env.api.NodeDoc.from_dict(copy.deepcopy(given[op[1] % len(data)]))
                del sink.records[:]
            o = ops.observe(env, copy.deepcopy(given), op, node)
            return o, list(sink.records)
        return world.isolated(fn)
    sink = world.attach_sink(env)
    env.settings.WARN_UNIMPLEMENTED_TYPE = plan["warn"]
    nodes = {}
    if plan["mode"] == "shared_node":
        can = {}
        for n in range(len(data)):  # which documents parse at all, found out elsewhere
            can[n] = world.isolated(lambda: world.outcome(lambda: env.api.NodeDoc.from_dict(copy.deepcopy(given[n])), image=lambda v: None))[0] == "ok"
        nodes = {n: None for n in can if can[n]}
    want = {}
    for op in [o for t in plan["threads"] for o in t]:
        want[ops.key(op, data), plan["warn"]] = None
    for f in plan["forks"]:
        for op in f["calls"]:
            want[ops.key(op, data), plan["warn"] != f["flip"]] = None
    for op, warn in want:
        want[op, warn] = expect(op, warn)
    for n in nodes:
        nodes[n] = env.api.NodeDoc.from_dict(data[n])
    for op in [o for t in plan["threads"] for o in t][:plan["warm"]]:
        ops.observe(env, data, op)
    del sink.records[:]
    env.instrument(plan["grain"], inject=bool(plan["stop"]))
    got = [[] for _ in plan["threads"]]
    now = [None] * len(plan["threads"])
    ended = [False] * len(plan["threads"])
    reports = []

    def client(k):
        mine = data if plan["mode"] != "private" else copy.deepcopy(data)

        def body():
            for op in plan["threads"][k]:
                node = nodes.get(op[1] % len(data)) if op[0] not in ("sub", "mark") else None
                now[k] = op[0]
                o = ops.observe(env, mine, op, node)
                now[k] = None
                got[k].append(o)
            ended[k] = True
        return body
    sims = []

    def forker():
        me = len(plan["threads"])
        for j, f in enumerate(plan["forks"]):
            s = core.CURRENT
            busy = [x for x in now if x]
            hurt = any(t.fired for t in s.tasks)
            reports.append((f, busy, hurt, child(env, sink, data, f, nodes, limit)))
            core.note(repr(reports[-1][3]))
            if j + 1 < len(plan["forks"]):
                s.step(s.tasks[me], 0xF)
    n = len(plan["threads"]) + 1
    policy = core.make_policy(plan["sched"], n)
    if plan["sched"]["kind"] != "replay":
        policy = At(policy, n - 1, [f["at"] for f in plan["forks"]])
    size = len(repr(data))
    sim = core.Sim(policy, 3_000_000 + 400 * size * max(2, sum(map(len, plan["threads"]))))
    for k in range(n - 1):
        sim.spawn(client(k))
    sim.spawn(forker)
    stop = plan["stop"]
    if stop and stop[0] < n - 1:
        sim.tasks[stop[0]].inj = (stop[1], lambda: c04.make(stop[2]))
    sim.run()
    run.trace = sim.trace
    run.steps += sim.total
    run.switches += sim.switches
    run.mix((sim.crc, sim.total))
    core.instrument(env.codes + env.support, None)
    for f, busy, hurt, rep in reports:
        run.fault("fork")
        if busy:
            run.probe("forked_mid_call")
        if len(busy) > 3:
            run.probe("forked_in_a_crowd")
        if any(x == "parse" for x in busy):
            run.probe("forked_mid_parse")
        if any(x in ("md", "mdi") for x in busy):
            run.probe("forked_mid_render")
        if not plan["warm"] and busy:
            run.probe("forked_young")
        if hurt:
            run.probe("forked_after_failure")
        judge(plan, run, data, want, f, rep, f"forked while other callers were in {busy}", plan["warn"] != f["flip"])
        if len(rep) > 2:
            run.probe("grandchild")
            judge(plan, run, data, want, f, rep[2], f"grandchild of a fork while other callers were in {busy}", plan["warn"] != f["flip"])
    if len(reports) > 1:
        run.probe("forked_twice")
    if sim.failure is not None:
        raise world.Violation(sim.failure[0], "in the parent: " + sim.failure[1])
    for k, t in enumerate(plan["threads"]):
        if sim.tasks[k].fired:
            run.fault("interrupt")
            continue
        for op, o in zip(t, got[k]):
            run.calls += 1
            w = want[ops.key(op, data), plan["warn"]][0]
            if o != w:
                raise world.Violation("wrong-result-in-parent:" + op[0], f"thread {k} of the parent, {op[0]} of document {op[1] % len(data)}: {world.diff_text(w, o)}")
    if nodes:
        run.probe("shared_node")
    run.mix([[world.short(o) for o in g] for g in got])


def judge(plan, run, data, want, f, rep, where, warn):
    out, failure = rep[:2]
    if failure and failure[0] == "harness":
        raise core.HarnessError(failure[1])
    if failure:
        op = f["calls"][len(out)]
        raise world.Violation("child-" + failure[0], f"{where}: {op[0]} of document {op[1] % len(data)} in the child never ends: {failure[1]}")
    for op, (o, log) in zip(f["calls"], out):
        run.calls += 1
        w, wlog = want[ops.key(op, data), warn]
        if o[0] == "exc":
            run.probe("child_error")
        if log:
            run.probe("child_warned")
        if o != w:
            raise world.Violation("wrong-result-in-child:" + op[0], f"{where}: {op[0]} of document {op[1] % len(data)} in the child: {world.diff_text(w, o)}")
        if log != wlog:
            raise world.Violation("wrong-warnings-in-child", f"{where}: {op[0]} of document {op[1] % len(data)} in the child: {world.diff_text(wlog, log)}")
