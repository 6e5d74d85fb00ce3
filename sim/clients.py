"""Shared parts of the checks whose clients are caller threads: schedule
generation, running the clients, pairing documents with parsed nodes, and
conversion failures raised at chosen nodes."""
import copy

from . import adf, core, faults, world


def gen_sched(rng, single=0.5, most=3, grains=("op", "line", "line", "call")):
    """How many callers, and who runs when."""
    if rng.random() < single:
        return {"nt": 1, "grain": "call", "sched": None}
    grain = rng.choice(list(grains))
    est = {"op": 6000, "line": 1200, "call": 300}[grain]
    return {"nt": rng.randrange(2, most + 1), "grain": grain, "sched": core.gen_policy(rng, est)}


def run_clients(env, run, plan, bodies):
    """Run the callers; one of them alone needs no scheduler."""
    if len(bodies) == 1 or not plan.get("sched"):
        out = [b() for b in bodies]
    else:
        env.instrument(plan.get("grain", "line"), support=plan.get("support", False))
        out, _ = run.simulate(bodies, plan["sched"])
        core.instrument(env.codes + env.support, None)
        if run.switches:
            run.probe("threads_overlapped")
        run.probe("threads_%d" % len(bodies))
    return out


def pair(d, node):
    """(element, parsed object, is_mark, owner element) in document order."""
    def rec(d, node, owner):
        yield d, node, False, owner
        ms = d.get("marks")
        if isinstance(ms, list):
            objs = getattr(node, "marks", None)
            known = [m for m in ms if adf.known(m, True)]
            if isinstance(objs, list) and len(objs) == len(known):
                for m, o in zip(known, objs):
                    yield m, o, True, d
        cs = d.get("content")
        if isinstance(cs, list):
            objs = getattr(node, "content", None)
            known = [c for c in cs if isinstance(c, dict) and adf.known(c, False)]
            if isinstance(objs, list) and len(objs) == len(known):
                for c, o in zip(known, objs):
                    yield from rec(c, o, d)
    yield from rec(d, node, None)


class Booms:
    """Makes the conversion of chosen objects raise a chosen exception."""

    def __init__(self, env):
        self.env = env
        self.at = {}  # id(obj) -> (harness id, exception name)
        self.keep = []
        self.fired = {}
        self.patched = set()

    def add(self, obj, hid, name):
        self.at[id(obj)] = (hid, name)
        self.keep.append(obj)
        cls = type(obj)
        if cls in self.patched:
            return
        self.patched.add(cls)
        orig = cls.to_markdown
        booms = self

        def to_markdown(self, *a, **kw):
            with core.quiet():
                hit = booms.at.get(id(self))
                if hit is not None:
                    booms.fired[hit[0]] = booms.fired.get(hit[0], 0) + 1
                    core.note(f"BOOM {hit[0]}")
            if hit is not None:
                raise faults.make_exc(hit[1], booms.env.exc)
            return orig(self, *a, **kw)

        type.__setattr__(cls, "to_markdown", to_markdown)


def gen_faults(rng, doc, n, boom=0.3, marks=0.12):
    """Render faults for up to n distinct elements of doc."""
    out = []
    els = [(e, m, p) for e, m, p in adf.elements(doc) if p is not None and "#" in e and "#u" not in e and adf.known(e, m)]
    if not els:
        return out
    used = set()
    for _ in range(n):
        # bias: a first failing element, then often one close to it
        e, m, p = rng.choice(els)
        if out and rng.random() < 0.4:
            near = [x for x in els if abs(x[0]["#"] - out[-1]["id"]) <= 4]
            e, m, p = rng.choice(near or els)
        if e["#"] in used:
            continue
        if m:
            if rng.random() < marks * 3:
                used.add(e["#"])
                out.append({"id": e["#"], "kind": "boom", "arg": rng.choice(faults.BOOMS)})
            continue
        f = faults.gen_render_fault(rng, e, boom=boom)
        if f:
            used.add(e["#"])
            out.append(f)
    return out


def owners(doc):
    """harness id -> id of the node that fails with it."""
    return {e["#"]: (p["#"] if m else e["#"]) for e, m, p in adf.elements(doc) if "#" in e}
