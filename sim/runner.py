"""Seeded search: many simulated runs over a pool of worker processes, then
minimisation, replay and evidence."""
import gc
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import socket
import struct
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_clock = time.perf_counter

LEVEL = "exploration"


def seed_rng(seed, prop, i):
    h = hashlib.sha256(f"{seed}:{prop}:{i}".encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


def load_prop(pid):
    return importlib.import_module(f"sim.props.{pid.lower()}")


# --------------------------------------------------------------------------
# workers
# --------------------------------------------------------------------------
def _send(sock, obj):
    b = pickle.dumps(obj)
    sock.sendall(struct.pack(">I", len(b)) + b)


def _recv_n(sock, n):
    buf = b""
    while len(buf) < n:
        c = sock.recv(n - len(buf))
        if not c:
            raise EOFError
        buf += c
    return buf


def _recv(sock):
    n = struct.unpack(">I", _recv_n(sock, 4))[0]
    return pickle.loads(_recv_n(sock, n))


def _worker(sock, pid, seed, tier):
    from . import boot, world
    try:
        prop = load_prop(pid)
        kind = getattr(prop, "ZYGOTE", "warm")
        boot.prepare(clock=getattr(prop, "CLOCK", True))
        env = world.Env(kind)
        if hasattr(prop, "setup"):
            prop.setup(env)
        gc.collect()
        gc.freeze()
    except BaseException:
        _send(sock, ("dead", traceback.format_exc()))
        os._exit(0)
    while True:
        try:
            msg = _recv(sock)
        except EOFError:
            os._exit(0)
        out = []
        for item in msg:
            try:
                if item[0] == "gen":
                    plan = prop.gen(seed_rng(seed, pid, item[1]), item[1], tier)
                    res = world.run_child(prop, plan, env)
                    res["i"] = item[1]
                    if res.get("viol") or item[1] < 2:
                        res["plan"] = plan
                    if not res.get("viol"):
                        res.pop("trace", None)
                else:
                    res = world.run_child(prop, item[1], env)
                    res["i"] = item[2]
            except BaseException:
                res = {"harness": traceback.format_exc(), "i": item[1] if item[0] == "gen" else item[2]}
            out.append(res)
        _send(sock, ("ok", out))


class Pool:
    def __init__(self, pid, seed, tier, n):
        self.socks = []
        self.pids = []
        for _ in range(n):
            a, b = socket.socketpair()
            p = os.fork()
            if p == 0:
                try:
                    for s in self.socks:
                        s.close()
                    a.close()
                    devnull = os.open(os.devnull, os.O_RDWR)
                    os.dup2(devnull, 1)
                    _worker(b, pid, seed, tier)
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(3)
            b.close()
            self.socks.append(a)
            self.pids.append(p)

    def map(self, items, chunk, stop=None):
        """Yield results of all items, in completion order."""
        it = iter(items)

        def nxt():
            out = []
            for x in it:
                out.append(x)
                if len(out) >= chunk:
                    break
            return out

        busy = {}
        for s in self.socks:
            c = nxt()
            if c:
                _send(s, c)
                busy[s] = c
        while busy:
            ready, _, _ = select.select(list(busy), [], [], 600)
            if not ready:
                raise RuntimeError("workers do not answer")
            for s in ready:
                try:
                    msg = _recv(s)
                except EOFError:
                    raise RuntimeError("a worker died")
                if msg[0] == "dead":
                    raise RuntimeError("worker setup failed:\n" + msg[1])
                del busy[s]
                yield from msg[1]
                c = [] if (stop is not None and stop()) else nxt()
                if c:
                    _send(s, c)
                    busy[s] = c

    def close(self):
        for s in self.socks:
            s.close()
        for p in self.pids:
            try:
                os.waitpid(p, 0)
            except OSError:
                pass


# --------------------------------------------------------------------------
# minimisation
# --------------------------------------------------------------------------
def _ddmin_cuts(n):
    """Index ranges to remove from a list of length n, coarse to fine."""
    size = n
    while size >= 1:
        for lo in range(0, n, size):
            yield lo, min(n, lo + size)
        size //= 2


def _paths(plan):
    """Lists in the plan that may be shortened."""
    out = []
    for k, v in plan.items():
        if k in ("sched", "docs"):
            continue
        if isinstance(v, list):
            out.append((k,))
            for i, x in enumerate(v):
                if isinstance(x, list) and k in ("threads",):
                    out.append((k, i))
    return out


def _get(plan, path):
    for p in path:
        plan = plan[p]
    return plan


def _with(plan, path, val):
    p = json.loads(json.dumps(plan))
    t = p
    for k in path[:-1]:
        t = t[k]
    t[path[-1]] = val
    return p


def _doc_cands(doc):
    """Smaller documents: elements removed (big subtrees first), containers
    replaced by their children, attributes and text simplified."""
    def rec(d, path):
        for key in ("content", "marks"):
            lst = d.get(key)
            if isinstance(lst, list):
                for i, c in enumerate(lst):
                    yield path + (key,), i
                    if isinstance(c, dict):
                        yield from rec(c, path + (key, i))

    sites = list(rec(doc, ()))
    sites.sort(key=lambda s: len(s[0]))
    for path, i in sites:
        lst = _get(doc, path)
        yield _with(doc, path, lst[:i] + lst[i + 1:])
    for path, i in sites:
        c = _get(doc, path)[i]
        if isinstance(c, dict) and isinstance(c.get("content"), list) and path and path[-1] == "content":
            lst = _get(doc, path)
            if len(c["content"]) == 1 and isinstance(c["content"][0], dict) and c["content"][0].get("type") == c.get("type"):
                yield _with(doc, path, lst[:i] + c["content"] + lst[i + 1:])
    for path, i in sites:
        c = _get(doc, path)[i]
        if isinstance(c, dict) and isinstance(c.get("marks"), list) and c["marks"]:
            yield _with(doc, path + (i,), {k: v for k, v in c.items() if k != "marks"})


def minimise(pool, prop, plan, res, budget=60):
    """Greedy parallel shrinking; keeps the violation class."""
    cls = res["viol"]["class"]
    t0 = _clock()
    evals = 0
    best, bres = plan, res
    if cls == "hang":
        return best, bres, 0

    def attempt(cands):
        """First candidate (in order) that still fails the same way."""
        nonlocal evals, best, bres
        batch = []

        def flush():
            nonlocal evals, best, bres
            got = {}
            for r in pool.map([("plan", c, n) for n, c in enumerate(batch)], 1):
                evals += 1
                v = r.get("viol")
                if v and v["class"] == cls:
                    got[r["i"]] = r
            if got:
                n = min(got)
                best, bres = batch[n], got[n]
                return True
            return False

        for c in cands:
            if _clock() - t0 > budget:
                return False
            batch.append(c)
            if len(batch) >= len(pool.socks):
                if flush():
                    return True
                batch = []
        if batch:
            return flush()
        return False

    def scheds(c):
        """The candidate under its own schedule, serially, and re-searched."""
        if not c.get("sched"):
            yield c
            return
        yield c
        if c["sched"]["kind"] == "replay" and plan.get("sched", {}).get("kind") not in (None, "replay"):
            for k in range(3):
                s = dict(plan["sched"])
                if "seed" in s:
                    s["seed"] = s["seed"] + k
                yield dict(c, sched=s)

    def freeze_sched():
        nonlocal best, bres
        if best.get("sched") and bres.get("trace"):
            c = dict(best, sched={"kind": "replay", "trace": bres["trace"]})
            attempt([c])

    if plan.get("sched"):
        attempt([dict(plan, sched={"kind": "serial"})])
        if best["sched"]["kind"] != "serial":
            freeze_sched()
    progress = True
    while progress and _clock() - t0 < budget:
        progress = False
        if hasattr(prop, "shrink"):
            while attempt([x for c in prop.shrink(best) for x in scheds(c)]):
                progress = True
                freeze_sched()
        for path in sorted(_paths(best), key=len):
            again = True
            while again and _clock() - t0 < budget:
                again = False
                try:
                    lst = _get(best, path)
                except (KeyError, IndexError):
                    break
                for lo, hi in _ddmin_cuts(len(lst)):
                    new = lst[:lo] + lst[hi:]
                    c = _with(best, path, new)
                    if attempt(scheds(c)):
                        progress = again = True
                        freeze_sched()
                        break
        for n in range(len(best.get("docs", []))):
            while _clock() - t0 < budget:
                cands = (_with(best, ("docs", n), d) for d in _doc_cands(best["docs"][n]))
                if not attempt(x for c in cands for x in scheds(c)):
                    break
                progress = True
                freeze_sched()
        s = best.get("sched")
        if s and s["kind"] == "replay" and len(s["trace"]) > 1:
            again = True
            while again and _clock() - t0 < budget:
                again = False
                tr = best["sched"]["trace"]
                for lo, hi in _ddmin_cuts(len(tr)):
                    c = dict(best, sched={"kind": "replay", "trace": tr[:lo] + tr[hi:]})
                    if attempt([c]):
                        again = progress = True
                        break
    # leave the schedule explicit: what the minimal run actually did
    if best.get("sched") and best["sched"]["kind"] not in ("replay", "serial"):
        freeze_sched()
    return best, bres, evals


# --------------------------------------------------------------------------
# known findings
# --------------------------------------------------------------------------
def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("property") == pid and d.get("status") == "known":
                    out.append(d)
    return out


# --------------------------------------------------------------------------
# the check
# --------------------------------------------------------------------------
def trim(x, n=6000):
    s = json.dumps(x, ensure_ascii=False)
    return x if len(s) <= n else s[:n] + "...(cut)"


def with_scratch(fn):
    """A scratch directory for the whole check, removed afterwards."""
    def wrapper(*a, **kw):
        import shutil
        import tempfile
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        d = tempfile.mkdtemp(prefix="verif-", dir=base)
        try:
            return fn(*a, scratch=d, **kw)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return wrapper


@with_scratch
def check(pid, tier, seed, runs=None, workers=None, out_dir=None, scratch=None):
    t0 = _clock()
    prop = load_prop(pid)
    if hasattr(prop, "begin"):
        prop.begin(scratch)
    n = runs or prop.RUNS[tier]
    workers = workers or int(os.environ.get("VERIF_WORKERS", "8"))
    print(f"{pid} tier={tier} VERIF_SEED={seed} runs={n} workers={workers}", flush=True)
    pool = Pool(pid, seed, tier, workers)
    viols, harness = [], []
    known = known_findings(pid)
    known_hit = {}
    agg = {"faults": {}, "probes": {}}
    totals = {"runs": 0, "steps": 0, "switches": 0, "sim_ms": 0, "calls": 0}
    distinct = set()
    samples = []

    def is_known(v):
        for k in known:
            if k["class"] == v["class"] and k.get("match", "") in v["msg"]:
                return k
        return None

    for r in pool.map((("gen", i) for i in range(n)), 8, stop=lambda: len(viols) >= 8 or len(harness) >= 3):
        if r.get("harness"):
            harness.append(r)
            continue
        totals["runs"] += 1
        for k in ("steps", "switches", "sim_ms", "calls"):
            totals[k] += r.get(k, 0)
        for g in ("faults", "probes"):
            for k, v in r.get(g, {}).items():
                agg[g][k] = agg[g].get(k, 0) + v
        if r.get("switches") or r.get("faults") or r.get("calls"):
            distinct.add(r["crc"])
        if r["i"] < 2 and "plan" in r and not r.get("viol"):
            samples.append({"run": r["i"], "plan": trim(r["plan"]), "steps": r["steps"], "switches": r["switches"], "faults": r["faults"], "event_log_crc": r["crc"]})
        if r.get("viol"):
            for k in r.get("known", []):
                pass
            k = is_known(r["viol"])
            if k is not None:
                known_hit[k["id"]] = k
            else:
                viols.append(r)
        for kid in r.get("known_hits", []):
            known_hit.setdefault(kid, None)
    search_s = _clock() - t0
    line = None
    if viols:
        viols.sort(key=lambda r: r["i"])
        first = viols[0]
        best, bres, evals = minimise(pool, prop, first["plan"], first)
        rdir = out_dir or os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{pid}-{seed}-{first['i']}.json")
        with open(path, "w", encoding="utf-8") as f:
            json.dump({
                "property": pid, "seed": seed, "run": first["i"], "tier": tier,
                "violation": bres["viol"], "event_log_crc": bres["crc"], "plan": best,
                "minimiser_runs": evals, "original_violation": first["viol"],
            }, f, indent=1, ensure_ascii=True)
        print(f"seed {seed} run {first['i']}: {bres['viol']['class']}: {bres['viol']['msg']}")
        line = f"VIOLATION property={pid} replay={path}"
    pool.close()
    for kid, k in sorted(known_hit.items()):
        k = k or next((x for x in known if x["id"] == kid), None)
        if k:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    wall = _clock() - t0
    cov = {
        "evaluations": totals["runs"],
        "distinct_nontrivial": len(distinct),
        "rule": getattr(prop, "RULE", "one simulated run per seed; non-trivial: at least one thread switch, injected fault or checked call; distinct: different hash of the event log (decisions with code locations, faults, outcomes)"),
        "samples": samples[:2] or [{"note": "no clean sample run"}],
        "runs_per_hour": int(totals["runs"] * 3600 / max(search_s, 1e-9)),
        "runs_per_seed": 1,
        "simulated_seconds": totals["sim_ms"] / 1000.0,
        "preemption_points_passed": totals["steps"],
        "thread_switches": totals["switches"],
        "library_calls_checked": totals["calls"],
        "faults_injected": dict(sorted(agg["faults"].items())),
        "probes": dict(sorted(agg["probes"].items())),
        "interleaving_measure": "distinct event-log hashes (switch decisions with thread, step and code location, faults, outcomes)",
        "real_components": getattr(prop, "REAL", ["atlas_doc_parser (working tree)", "func_args", "CPython interpreter, copy, dataclasses, logging, textwrap"]),
        "stubbed_components": getattr(prop, "STUB", ["thread scheduling, locks and import locks (cooperative, seeded)", "clock and sleep (simulated)", "log destination (simulated sink)"]),
        "search_wall_s": round(search_s, 2),
    }
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": getattr(prop, "LEVEL", LEVEL), "coverage": cov,
        "assumptions": getattr(prop, "ASSUME", []) + ["sampling: a clean batch is evidence, not proof"],
        "wall_s": round(wall, 2), "violations": len(viols),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
    print(f"{pid}: {totals['runs']} runs, {len(distinct)} distinct, {totals['switches']} switches, faults {sum(agg['faults'].values())}, {wall:.1f}s")
    if harness and not viols:
        print("HARNESS ERROR (no verdict):")
        print(harness[0]["harness"])
        return 2
    missing = [p for p in getattr(prop, "MUST_PROBE", []) if not agg["probes"].get(p) and not agg["faults"].get(p)]
    if missing and not viols and n >= prop.RUNS["quick"]:
        print(f"note: never reached: {missing}")
    if line:
        print(line, flush=True)
        return 1
    return 0


@with_scratch
def replay(path, scratch=None):
    """Re-execute a replay file in this fresh process."""
    from . import boot, world
    with open(path, encoding="utf-8") as f:
        d = json.load(f)
    prop = load_prop(d["property"])
    if hasattr(prop, "begin"):
        prop.begin(scratch)
    boot.prepare(clock=getattr(prop, "CLOCK", True))
    env = world.Env(getattr(prop, "ZYGOTE", "warm"))
    if hasattr(prop, "setup"):
        prop.setup(env)
    res = world.run_child(prop, d["plan"], env)
    if res.get("harness"):
        print(res["harness"])
        return 2
    if res.get("viol"):
        same = res["viol"] == d["violation"] and res["crc"] == d["event_log_crc"]
        print(f"reproduced{' exactly' if same else ''}: {res['viol']['class']}: {res['viol']['msg']}")
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    print("not reproduced: the property holds on this replay")
    return 0
