"""determinism.py [PROPS...] [--runs N]   (self-test of the simulator)

Executes the same seeds of every check several times in separate processes,
under other hash seeds of the harness process and after unrelated work, and
compares plan, event-log hash, step and switch counts and faults.  One seed
has to be one exactly repeatable execution."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHILD = r"""
import gc, hashlib, json, os, sys
sys.path.insert(0, %(here)r)
from sim import boot, runner, world
pid, n, order = sys.argv[1], int(sys.argv[2]), sys.argv[3]
prop = runner.load_prop(pid)
import tempfile, shutil
d = tempfile.mkdtemp(prefix="verif-det-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
out = {}
try:
    if hasattr(prop, "begin"):
        prop.begin(d)
    boot.prepare(clock=getattr(prop, "CLOCK", True))
    env = world.Env(getattr(prop, "ZYGOTE", "warm"))
    if hasattr(prop, "setup"):
        prop.setup(env)
    gc.collect(); gc.freeze()
    ids = list(range(n))
    if order == "reverse":
        ids.reverse()
    for i in ids:
        plan = prop.gen(runner.seed_rng(1, pid, i), i, "quick")
        r = world.run_child(prop, plan, env)
        h = hashlib.sha256(json.dumps(plan, sort_keys=True).encode("utf-8", "surrogatepass")).hexdigest()[:12]
        out[i] = [h, r.get("crc"), r.get("steps"), r.get("switches"), r.get("sim_ms"), r.get("calls"), r.get("faults"), r.get("probes"), bool(r.get("viol")), r.get("harness")]
finally:
    shutil.rmtree(d, ignore_errors=True)
print("@@" + json.dumps(out))
os._exit(0)
"""


def run(pid, n, seed, order):
    env = dict(os.environ, PYTHONHASHSEED=seed, PYTHONDONTWRITEBYTECODE="1", CI="true", TZ="UTC", LC_ALL="C.UTF-8")
    p = subprocess.run(["/opt/venv/bin/python", "-B", "-c", CHILD % {"here": HERE}, pid, str(n), order], cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    for l in p.stdout.splitlines():
        if l.startswith("@@"):
            return json.loads(l[2:])
    raise SystemExit(p.stdout + p.stderr)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    n = int(sys.argv[sys.argv.index("--runs") + 1]) if "--runs" in sys.argv else 40
    args = [a for a in args if not a.isdigit()] or [f"C{k:02d}" for k in range(1, 20)]
    bad = 0
    for pid in args:
        a = run(pid, n, "0", "forward")
        for seed, order in (("0", "reverse"), ("4242", "forward")):
            b = run(pid, n, seed, order)
            diff = [i for i in a if a[i] != b[i]]
            bad += len(diff)
            print(pid, f"hashseed={seed} {order}: {n} seeds,", "identical" if not diff else f"DIFFERENT {diff[:5]} {a[diff[0]]} {b[diff[0]]}"[:700], flush=True)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
