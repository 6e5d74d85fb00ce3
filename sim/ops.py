"""The workload vocabulary shared by the checks: library calls on the plan's
documents, and what "alone in a fresh process" means for each of them."""
import json
import copy

from . import adf, core, faults, world


def mixed_doc(rng, damage=0.35, unknown=0.3, malformed=0.12, **kw):
    """A document as deployments meet them: mostly healthy, sometimes with
    elements of a newer version, unconvertible nodes or malformed parts."""
    doc = adf.gen_doc(rng, **kw)
    if rng.random() < unknown:
        doc = faults.add_unknown(rng, doc, rng.randrange(1, 4))
    if rng.random() < damage:
        els = [e for e, m, p in adf.elements(doc) if not m and p is not None and adf.known(e, m) and "#" in e]
        fs = []
        for e in rng.sample(els, min(len(els), rng.randrange(1, 4))):
            f = faults.gen_render_fault(rng, e, boom=0)
            if f:
                fs.append(f)
        doc = faults.apply_all(doc, fs)
    if rng.random() < malformed:
        els = [(e, m, p) for e, m, p in adf.elements(doc) if adf.known(e, m) and "#" in e]
        e, m, p = rng.choice(els)
        f = faults.gen_malformed(rng, e, m, p)
        if f:
            doc = faults.apply_malformed(doc, [f])
    return doc


def twist(rng, doc):
    """A near copy: same shape, a few values replaced by ones that compare
    equal but differ (1, 1.0, True), by other text, or by other flags."""
    d = copy.deepcopy(doc)
    els = [(e, m) for e, m, p in adf.elements(d)]
    for _ in range(rng.randrange(1, 4)):
        e, m = rng.choice(els)
        k = rng.randrange(6)
        a = e.get("attrs")
        if k <= 2 and isinstance(a, dict) and a:
            key = rng.choice(sorted(a))
            v = a[key]
            if isinstance(v, bool):
                a[key] = int(v)
            elif isinstance(v, int) and key != "timestamp":
                a[key] = float(v) if rng.random() < .5 else (bool(v) if v in (0, 1) else v + 1)
            elif isinstance(v, float):
                a[key] = int(v)
            elif isinstance(v, str) and key not in ("timestamp", "type"):
                a[key] = v + "x" if rng.random() < .7 else v.upper()
            elif isinstance(v, list):
                a[key] = v + [1]
        elif k == 3 and e.get("type") == "text" and isinstance(e.get("text"), str):
            e["text"] = rng.choice([e["text"] + "y", e["text"].upper(), "y" + e["text"]])
        elif k == 4 and isinstance(e.get("content"), list) and len(e["content"]) > 1:
            rng.shuffle(e["content"])
        elif k == 5 and isinstance(e.get("marks"), list):
            e["marks"] = e["marks"][::-1] if len(e["marks"]) > 1 else []
    return d


OPS = ["parse", "dict", "md", "md", "mdi", "mdi", "json", "again", "sub", "mark"]


def gen_op(rng, ndocs, kinds=OPS):
    return [rng.choice(kinds), rng.randrange(ndocs), rng.getrandbits(16)]


def parse(env, d):
    return env.api.parse_node(d)


def do_op(env, data, op, node=None):
    """Perform one operation; returns a comparable value.  ``data`` is the
    list of clean documents, ``node`` an already parsed document if shared."""
    kind, n, r = op
    d = data[n % len(data)]
    if node is None and kind not in ("sub", "mark"):
        node = env.api.NodeDoc.from_dict(d) if r % 3 else parse(env, d)
    if kind == "parse":
        with core.quiet():
            return world.walk(node)
    if kind == "dict":
        return adf.freeze(node.to_dict())
    if kind == "md":
        return node.to_markdown()
    if kind == "mdi":
        return node.to_markdown(ignore_error=True)
    if kind == "json":
        v = node.to_dict()
        with core.quiet():
            return json.dumps(v, sort_keys=True)
    if kind == "again":
        n2 = parse(env, node.to_dict())
        with core.quiet():
            w = world.walk(n2)
        return (w, n2 == node)
    with core.quiet():
        els = [(e, m) for e, m, p in adf.elements(d)] if isinstance(d, dict) else []
        ms = [e for e, m in els if m]
        ns = [e for e, m in els if not m]
    if kind == "mark" and ms:
        e = ms[r % len(ms)]
        mk = env.api.parse_mark(e)
        with core.quiet():
            w = world.walk(mk)
        return (w, adf.freeze(mk.to_dict()), mk.to_markdown("abc|d"))
    e = ns[r % len(ns)]
    nd = parse(env, e)
    with core.quiet():
        w = world.walk(nd)
    return (w, nd.to_markdown(ignore_error=bool(r & 1)))


def observe(env, data, op, node=None):
    return world.outcome(lambda: do_op(env, data, op, node), image=lambda v: v)


def alone(env, data, op):
    """The same call alone in a fresh process."""
    def fn():
        world.attach_sink(env)
        return observe(env, copy.deepcopy(data), op)
    return world.isolated(fn)


def alone_many(env, data, ops):
    """Expected outcome per distinct op, each in its own process."""
    out = {}
    for op in ops:
        k = (op[0], op[1] % len(data), op[2])
        if k not in out:
            out[k] = alone(env, data, op)
    return out


def key(op, data):
    return (op[0], op[1] % len(data), op[2])
