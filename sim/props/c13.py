"""C13: a saved document reloads identically after restarts, generation after
generation."""
import copy
import io
import json
import random

from .. import adf, boot, clients, core, faults, ops, world

ID = "C13"
RUNS = {"quick": 2000, "thorough": 90000}
MUST_PROBE = ["generations", "crash", "torn_save", "history", "unknown", "extra"]
TZS = ["UTC", "XXX-14", "YYY12", "EST5EDT,M3.2.0,M11.1.0"]


def gen(rng, i, tier):
    d = adf.gen_doc(rng, null=rng.choice([0.05, 0.3]))
    if rng.random() < 0.4:
        d = faults.add_unknown(rng, d, rng.randrange(1, 4))
    if rng.random() < 0.4:
        d = faults.apply_extra(d, [faults.gen_extra(rng, e, m) for e, m, p in adf.elements(d) if "#u" not in e and adf.known(e, m) and rng.random() < 0.2])
    gens = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        gens.append({
            "seed": rng.getrandbits(32), "before": rng.choice([0, 0, 1, 3]), "tz": rng.choice(TZS), "jump": rng.choice([0, 1, -10**9, 10**9]),
            "dump": rng.choice([{}, {"indent": 1}, {"sort_keys": True}, {"ensure_ascii": False}, {"separators": [",", ":"]}]),
            "fault": rng.choice([None, None, None, "crash_before", "torn", "crash_after", "enospc"]), "at": rng.random(),
            "mdfirst": rng.random() < 0.5, "interrupt": rng.getrandbits(30) if rng.random() < 0.2 else None, "enc": rng.choice(["utf-8", "utf-8", "utf-16"]),
        })
    return {"docs": [d], "gens": gens, "warn": rng.random() < 0.3}


class Disk:
    """One file with durable content; a save replaces it in place and may be
    torn by a crash (the previous generation is kept as a second copy)."""

    def __init__(self):
        self.good = None
        self.file = None


def process(env, blob, enc, g, plan, want, eqdata):
    """One process generation: load, check, serialise; runs in a fork."""
    import os, time
    os.environ["TZ"] = g["tz"]
    time.tzset()
    boot.CLOCK.now += g["jump"]
    world.attach_sink(env)
    env.settings.WARN_UNIMPLEMENTED_TYPE = plan["warn"]
    rng = random.Random(g["seed"])
    facts = {}
    for _ in range(g["before"]):
        other = adf.clean(ops.mixed_doc(rng, size=8))
        world.outcome(lambda: env.api.NodeDoc.from_dict(other).to_markdown())
        world.outcome(lambda: env.api.NodeDoc.from_dict(other).to_dict())
        facts["history"] = 1
    data = json.loads(blob.decode(enc))
    try:
        node = env.api.NodeDoc.from_dict(data)
    except Exception as e:
        raise world.Violation("reload-fails", f"{type(e).__name__}: {e}")
    md = None
    if g["mdfirst"]:
        md = world.outcome(lambda: node.to_markdown(), image=lambda v: v)
    if g["interrupt"] is not None:
        env.instrument(None, inject=True)
        with core.Solo(1 + g["interrupt"] % 400, lambda: KeyboardInterrupt()) as s:
            try:
                node.to_dict()
                env.api.NodeDoc.from_dict(data)
                node.to_markdown(ignore_error=True)
            except KeyboardInterrupt:
                facts["interrupted"] = 1
        core.instrument(env.codes, None)
    try:
        out = node.to_dict()
    except Exception as e:
        raise world.Violation("serialise-fails", f"{type(e).__name__}: {e}")
    try:
        text = json.dumps(out, **g["dump"])
    except (TypeError, ValueError) as e:
        raise world.Violation("not-json", f"{e}")
    if adf.freeze(json.loads(text)) != adf.freeze(out):
        raise world.Violation("not-plain-json", world.diff_text(adf.freeze(out), adf.freeze(json.loads(text))))
    if adf.freeze(out) != want:
        raise world.Violation("data-differs", world.diff_text(want, adf.freeze(out)))
    again = env.api.NodeDoc.from_dict(json.loads(text))
    if not (again == node) or (again != node) or world.walk(again) != world.walk(node):
        raise world.Violation("not-equal", "the reloaded document is not equal to the saved one")
    first = env.api.NodeDoc.from_dict(copy.deepcopy(eqdata))
    if not (first == node):
        raise world.Violation("not-equal", "the reloaded document is not equal to the original")
    if md is None:
        md = world.outcome(lambda: node.to_markdown(), image=lambda v: v)
    return text, md, facts


def execute(plan, env, run):
    if not plan["docs"]:
        return
    doc = plan["docs"][0]
    data = adf.clean(doc)
    if data.get("type") != "doc":
        return
    want = adf.freeze(adf.canon(data))
    try:
        blob = json.dumps(data).encode("utf-8")
    except (TypeError, ValueError):
        return
    enc = "utf-8"
    good = (blob, enc)
    base = None
    for k, g in enumerate(plan["gens"]):
        text, md, facts = world.isolated(lambda: process(env, good[0], good[1], g, plan, want, data))
        run.calls += 1
        run.probe("generations")
        for f, n in facts.items():
            run.probe(f, n)
            if f == "interrupted":
                run.fault("interrupt")
        if base is None:
            base = md
        elif md != base:
            raise world.Violation("markdown-differs", f"generation {k}: {world.diff_text(base, md)}")
        new = text.encode(g["enc"], "surrogatepass")
        f = g["fault"]
        if f in ("torn", "enospc"):
            run.fault("torn_save" if f == "torn" else "disk_full")
            run.probe("torn_save")
            part = new[: int(g["at"] * len(new))]
            try:
                ok = adf.freeze(json.loads(part.decode(g["enc"]))) == want
            except ValueError:
                ok = False
            if ok:
                good = (part, g["enc"])
            continue  # restart from the last complete save
        if f == "crash_before":
            run.fault("crash_before_save")
            run.probe("crash")
            continue
        if f == "crash_after":
            run.fault("crash_after_save")
            run.probe("crash")
        good = (new, g["enc"])
    for e, m, p in adf.elements(doc):
        if "#u" in e:
            run.probe("unknown")
        if any(k not in ("#", "#u", "type", "attrs", "content", "marks", "text", "version") for k in e):
            run.probe("extra")
    run.mix((world.short(want), base and world.short(base), [g["fault"] for g in plan["gens"]]))
