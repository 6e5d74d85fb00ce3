"""C14: every piece of text survives into the Markdown, once and in order."""
import collections
import re

from .. import adf, clients, core, faults, world
from . import c05

ID = "C14"
RUNS = {"quick": 2600, "thorough": 120000}
MUST_PROBE = ["threads_overlapped", "damaged", "unknown", "healthy", "segments"]


def gen(rng, i, tier):
    docs, fs = [], []
    for n in range(rng.choice([1, 1, 2])):
        d = adf.gen_doc(rng)
        if rng.random() < 0.35:
            d = faults.add_unknown(rng, d, rng.randrange(1, 5))
        docs.append(d)
        if rng.random() < 0.5:
            fs += [dict(f, doc=n) for f in clients.gen_faults(rng, d, rng.choice([1, 1, 2, 4]))]
    s = clients.gen_sched(rng)
    threads = [[[rng.choice(["md", "mdi"]), rng.randrange(len(docs)), 0] for _ in range(rng.choice([1, 2]))] for _ in range(s.pop("nt"))]
    return dict(s, docs=docs, faults=fs, threads=threads, warn=rng.random() < 0.3)


TOKEN = re.compile(r"q\d+z|\d{4}-\d\d-\d\d")


BREAKS = re.compile("([\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029])")


def find(s, text, pos):
    """Where the piece starts and ends; behind an unusual line boundary inside
    it a quote may repeat its prefix."""
    if BREAKS.search(s):
        m = re.compile("".join(re.escape(x) + ("(?:> ?)*" if BREAKS.fullmatch(x) else "") for x in BREAKS.split(s))).search(text, pos)
        return m.span() if m else (-1, -1)
    j = text.find(s, pos)
    return j, j + len(s)


def execute(plan, env, run):
    if not plan["docs"]:
        return
    docs, booms = c05.prepare(plan, env, run)
    got = []

    def client(k):
        def body():
            for op in plan["threads"][k]:
                n = op[1] % len(docs)
                node = docs[n][2]
                ign = op[0] == "mdi"
                o = world.outcome(lambda: node.to_markdown(ignore_error=ign), image=lambda v: v)
                core.note(f"{k}:{o[0]}")
                got.append((n, ign, o))
        return body

    clients.run_clients(env, run, plan, [client(k) for k in range(len(plan["threads"]))])
    for n, ign, o in got:
        run.calls += 1
        failing = c05.failing_ids(docs, n, booms)
        if o[0] == "exc":
            if failing and not ign:
                continue  # strict rendering of a damaged document: C06
            raise world.Violation("raises", f"rendering raised {o[1]}: {o[2]}")
        pruned = adf.prune_unknown(faults.prune_failing(docs[n][0], failing))
        segs = adf.segments(adf.clean(pruned))
        run.probe("segments", len(segs))
        run.probe("damaged" if failing else "healthy")
        text = o[1]
        pos = 0
        for s in segs:
            j, k = find(s, text, pos)
            if j < 0:
                cls = "reordered" if find(s, text, 0)[0] >= 0 else "lost-text"
                raise world.Violation(cls, f"{s!r} is not in the Markdown at its place: ...{text[max(0, pos-80):pos+160]!r}...")
            pos = k
        a = collections.Counter(t for s in segs for t in TOKEN.findall(s))
        b = collections.Counter(TOKEN.findall(text))
        if a != b:
            more = {k: (a[k], b[k]) for k in set(a) | set(b) if a[k] != b[k]}
            raise world.Violation("text-count", f"pieces (expected, found): {dict(sorted(more.items())[:6])}")
    for f in plan["faults"]:
        if f["kind"] == "boom":
            run.fault("boom:" + f["arg"], booms.fired.get((f["doc"], f["id"]), 0))
        else:
            run.fault(f["kind"])
    if any("#u" in e for d in plan["docs"] for e, m, p in adf.elements(d)):
        run.probe("unknown")
    run.mix([(n, ign, world.short(o)) for n, ign, o in got])
