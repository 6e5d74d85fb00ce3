"""C24: every call ends after work bounded by the size of its input, after any
history and among other callers."""
import copy
import math
import random
import sys

from .. import adf, core, faults, ops, world
from . import c03, c04, c11

ID = "C24"
RUNS = {"quick": 1200, "thorough": 50000}
MUST_PROBE = ["deep", "wide", "deep_mixed", "broken_deep", "after_history", "interrupted", "threads_overlapped", "long_text", "many_marks", "unknown_deep", "cold_history"]
EXC = ["KeyboardInterrupt", "SystemExit", "MemoryError"]
TOOL = 3
# steps (executed lines of Python) allowed per unit of work, and at least
BOUND = {"parse": 30, "dict": 45, "md": 30, "mdi": 30, "json": 45, "again": 80, "sub": 40, "mark": 60}
FLOOR = 10000

NEST = {
    "bulletList": "listItem", "orderedList": "listItem", "taskList": "taskItem", "decisionList": "decisionItem",
    "blockquote": None, "panel": None, "expand": None, "nestedExpand": None, "table": "tableRow", "table2": "tableRow",
    "paragraph": None, "heading": None, "mediaSingle": None, "codeBlock": None, "caption": None, "taskList2": None, "bulletList2": None,
}
ATTRS = {
    "panel": {"panelType": "info"}, "heading": {"level": 2}, "taskList": {"localId": "a"}, "taskItem": {"localId": "a", "state": "TODO"},
    "decisionList": {"localId": "a"}, "decisionItem": {"localId": "a", "state": "DECIDED"}, "nestedExpand": {"title": "t"}, "orderedList": {"order": 3},
}


class Chain:
    def __init__(self, rng):
        self.rng = rng
        self.n = 0

    def el(self, t, content=None, **kw):
        self.n += 1
        d = {"type": t, "#": self.n}
        if t in ATTRS:
            d["attrs"] = dict(ATTRS[t])
        if content is not None:
            d["content"] = content
        d.update(kw)
        return d

    def text(self):
        self.n += 1
        return {"type": "text", "text": f"q{self.n}z", "#": self.n}

    def build(self, kinds, depth, before, after):
        rng = self.rng
        cell = rng.choice([None, "tableCell", "tableHeader"])
        d = self.el("paragraph", [self.text()])
        for level in range(depth):
            k = rng.choice(kinds)
            pad = lambda n: [self.el("paragraph", [self.text()]) for _ in range(n)]
            inner = pad(before) + [d] + pad(after)
            if k == "table":
                cells = [self.el(cell or rng.choice(["tableCell", "tableHeader"]), inner)]
                d = self.el("table", [self.el("tableRow", cells)])
            elif k == "table2":
                d = self.el("table", [self.el("tableRow", [self.el("tableHeader", [self.el("paragraph", [self.text()])])]), self.el("tableRow", [self.el("tableCell", inner)])])
            elif k == "taskList2":  # lists directly inside lists
                d = self.el("taskList", [self.el("taskItem", [self.text()]), d if d["type"] == "taskList" else self.el("taskItem", inner)])
            elif k == "bulletList2":
                d = self.el("bulletList", [self.el("listItem", [d]), self.el("listItem", pad(1))])
            elif NEST[k]:
                d = self.el(k, [self.el(NEST[k], inner)])
            else:
                d = self.el(k, inner)
        return d


def gen_deep(rng):
    c = Chain(rng)
    kinds = rng.choice([[rng.choice(sorted(NEST))]] * 3 + [rng.sample(sorted(NEST), 2), sorted(NEST)])
    depth = rng.choice([8, 16, 24, 40])
    d = c.build(kinds, depth, rng.choice([0, 0, 1]), rng.choice([0, 0, 1]))
    doc = c.el("doc", [d], version=1)
    shape = "deep" if len(kinds) == 1 else "deep_mixed"
    x = rng.random()
    if x < 0.2:  # and something goes wrong at the bottom
        els = [e for e, m, p in adf.elements(doc)]
        f = faults.gen_render_fault(rng, els[-1], boom=0)
        if f:
            doc = faults.apply_all(doc, [f])
            shape = "broken_deep"
    elif x < 0.35:
        doc = faults.add_unknown(rng, doc, rng.choice([1, 5]))
        shape = "unknown_deep"
    elif x < 0.45:
        e, m, p = rng.choice([y for y in adf.elements(doc)][-3:])
        f = faults.gen_malformed(rng, e, m, p)
        if f:
            doc = faults.apply_malformed(doc, [f])
            shape = "broken_deep"
    return doc, shape


def gen_wide(rng):
    c = Chain(rng)
    k = rng.choice(sorted(NEST))
    d = c.build([k], 1, 0, 0)
    inner = d
    while len(inner.get("content", [])) == 1 and inner["content"][0].get("content"):
        if rng.random() < 0.4:
            break
        inner = inner["content"][0]
    n = rng.choice([50, 200])
    for _ in range(n):
        e = copy.deepcopy(inner["content"][-1])
        inner["content"].append(e)
    num = 0
    doc = c.el("doc", [d], version=1)
    for e, m, p in adf.elements(doc):
        num += 1
        e["#"] = num
    return doc, "wide"


def gen_text(rng):
    c = Chain(rng)
    piece = rng.choice(["a", " ", "\n", "a\n", "*", "|", "\\", "`", "[", "<", "&", "- ", "  \n", "\t", "a b ", "\n\n\n", "_a", "](", "1. ", "é"])
    t = c.text()
    t["text"] = piece * rng.choice([300, 3000]) + rng.choice(["", "x"])
    if rng.random() < 0.5:
        t["marks"] = [{"type": m, "#": 1000 + i} for i, m in enumerate(rng.sample(["strong", "em", "strike", "underline"], 2))]
    inner = [t]
    k = rng.choice(["paragraph", "codeBlock", "heading"])
    d = c.el(k, inner)
    for w in rng.sample(["blockquote", "panel", "expand"], rng.randrange(3)):
        d = c.el(w, [d])
    return c.el("doc", [d], version=1), "long_text"


def gen_marks(rng):
    c = Chain(rng)
    t = c.text()
    names = ["strong", "em", "strike", "underline", "zzz", "yyy"]
    t["marks"] = [{"type": rng.choice(names), "#": 1000 + i} for i in range(rng.choice([20, 60]))]
    return c.el("doc", [c.el("paragraph", [t])], version=1), "many_marks"


def gen(rng, i, tier):
    docs, shapes = [], []
    for _ in range(rng.choice([1, 1, 2])):
        x = rng.random()
        d, s = gen_deep(rng) if x < 0.5 else gen_wide(rng) if x < 0.65 else gen_text(rng) if x < 0.75 else gen_marks(rng) if x < 0.82 else (ops.mixed_doc(rng, size=rng.choice([8, 30])), "ordinary")
        docs.append(d)
        shapes.append(s)
    kinds = ["parse", "dict", "md", "mdi", "mdi", "again", "json", "sub"]
    calls = [[rng.choice(kinds), rng.randrange(len(docs)), rng.getrandbits(16)] for _ in range(rng.choice([2, 4]))]
    history = []
    for _ in range(rng.choice([0, 3, 3, 8])):
        x = rng.random()
        if x < 0.3:
            history.append(["int", rng.randrange(4), rng.choice(EXC), int(math.exp(rng.uniform(0, math.log(5000))))])
        elif x < 0.4:
            history.append(["stack", rng.randrange(4), rng.randrange(5, 150)])
        elif x < 0.8:
            history.append(["same", rng.randrange(4), rng.choice([5, 40])])
        else:
            history.append(["other", rng.getrandbits(24), rng.choice([20, 100])])
    plan = {"docs": docs, "shapes": shapes, "calls": calls, "history": history, "warn": rng.random() < 0.4, "cold": rng.random() < 0.4}
    if rng.random() < 0.35:
        g = rng.choice(["line", "call"])
        plan["threads"] = [[calls[rng.randrange(len(calls))] for _ in range(rng.choice([1, 2]))] for _ in range(rng.choice([2, 3]))]
        plan["grain"] = g
        plan["sched"] = core.gen_policy(rng, {"line": 1500, "call": 400}[g])
    return plan


# --------------------------------------------------------------------------
def work(d):
    """The sizes of all subtrees of the data added up, and the lines of text
    each with its depth."""
    total = [0]

    def rec(x):
        n = 1
        if isinstance(x, dict):
            n += sum(rec(v) + 1 for v in x.values())
        elif isinstance(x, list):
            n += sum(rec(v) for v in x)
        elif isinstance(x, str):
            n += len(x.splitlines())
        total[0] += n
        return n
    rec(d)
    return total[0]


class TooMuch(BaseException):
    pass


class Steps:
    """Counts the lines of Python code executed in this thread."""

    def __enter__(self):
        m = sys.monitoring
        self.n = 0
        m.use_tool_id(TOOL, "steps")

        def line(code, no):
            if code.co_filename == __file__:
                return
            self.n += 1
            if self.n > self.limit:
                raise TooMuch()
        m.register_callback(TOOL, m.events.LINE, line)
        m.set_events(TOOL, m.events.LINE)
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(TOOL, 0)
        m.register_callback(TOOL, m.events.LINE, None)
        m.free_tool_id(TOOL)

    limit = 1 << 60
    what = ""


def measured(env, data, op, limit, what):
    s = Steps()
    s.limit, s.what = limit, what
    with s:
        try:
            ops.do_op(env, data, op)
        except (Exception, TooMuch):
            pass
    if s.n > limit:
        raise world.Violation("unbounded-work", f"{what}: more than {limit} steps")
    return s.n


def execute(plan, env, run):
    if not plan["docs"] or not plan["calls"]:
        return
    data = [adf.clean(d) for d in plan["docs"]]
    sink = world.attach_sink(env)
    env.settings.WARN_UNIMPLEMENTED_TYPE = plan["warn"]
    size = [work(d) for d in data]
    for s in plan["shapes"]:
        run.probe(s)
    first = {}

    def call(op, what):
        run.calls += 1
        n = op[1] % len(data)
        limit = FLOOR + BOUND[op[0]] * size[n]
        c = measured(env, data, op, limit, f"{op[0]} of document {n} ({plan['shapes'][n % len(plan['shapes'])]}, total size of its subtrees {size[n]}), {what}")
        sink.records.clear()
        k = ops.key(op, data)
        if k not in first:
            first[k] = c
        elif c > 2 * first[k] + 300:
            raise world.Violation("slower-with-history", f"{op[0]} of document {n}, {what}: {c} steps; the first time {first[k]}")
        return c

    if plan.get("cold"):
        # trouble comes before the first use; the yardstick is another process
        def alone():
            out = {}
            for n in range(2):
                for op in plan["calls"]:
                    first.clear()
                    out[ops.key(op, data)] = call(op, "alone")
            return out
        yardstick = world.isolated(alone)
        run.probe("cold_history")
    else:
        for op in plan["calls"]:
            call(op, "first")
        for op in plan["calls"]:
            first[ops.key(op, data)] = call(op, "second")  # everything is warm now
    for e in plan["history"]:
        if e[0] == "int":
            env.instrument(None, inject=True, support=True)
            with core.Solo(e[3], lambda: c04.make(e[2])) as s:
                world.outcome(lambda: ops.do_op(env, data, plan["calls"][e[1] % len(plan["calls"])]), image=lambda v: None)
            core.instrument(env.codes + env.support, None)
            if s.fired:
                run.fault("interrupt:" + e[2])
                run.probe("interrupted")
        elif e[0] == "stack":
            c03.with_stack(e[2], lambda: ops.do_op(env, data, plan["calls"][e[1] % len(plan["calls"])]))
            run.fault("stack_limit")
        elif e[0] == "same":
            op = plan["calls"][e[1] % len(plan["calls"])]
            for _ in range(e[2] if size[op[1] % len(data)] < 20000 else 2):
                world.outcome(lambda: ops.do_op(env, data, op), image=lambda v: None)
        else:
            rng = random.Random(e[1])
            for _ in range(e[2]):
                d = adf.clean(ops.mixed_doc(rng, size=3))
                world.outcome(lambda: env.api.parse_node(d).to_markdown(ignore_error=True), image=lambda v: None)
        run.probe("after_history")
        sink.records.clear()
    if plan.get("cold"):
        for op in plan["calls"]:
            first.clear()
            call(op, "after trouble")
        first.clear()
        first.update(yardstick)
    for op in plan["calls"]:
        call(op, f"after {len(plan['history'])} events")
    if plan.get("threads"):
        def solo(t):
            """Preemption points the thread passes when it is alone."""
            def fn():
                env.instrument(plan["grain"])
                r = world.Run()
                r.simulate([body(t)], {"kind": "serial"})
                return r.steps
            return world.isolated(fn)

        def body(t):
            def b():
                for op in t:
                    ops.observe(env, data, op)
            return b
        alone = sum(solo(t) for t in plan["threads"])
        env.instrument(plan["grain"])
        run.simulate([body(t) for t in plan["threads"]], plan["sched"], max_steps=4 * alone + 5000)
        core.instrument(env.codes + env.support, None)
        if run.switches:
            run.probe("threads_overlapped")
        if run.steps > 2 * alone + 500:
            raise world.Violation("slower-together", f"{len(plan['threads'])} callers together: {run.steps} steps, one after the other {alone}")
    run.mix(sorted((k, v) for k, v in first.items()))
