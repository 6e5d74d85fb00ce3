"""plant.py SPEC.py [--check]   (development aid, not used by any check)

SPEC.py defines ID, PROP, EDITS=[(path, old, new)], DEMO, NEEDS, BREAKS (and may
define FILES={name: text} laid beside the demo).  The edits are made in a
scratch copy of /repo; the change is kept in /verif/seeded/<ID> when the stable
tests pass with it, the demo passes without it and fails with it.  --check then
runs the property's quick check against the scratch copy."""
import json
import os
import runpy
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 CI=true PYTHONPATH="$PWD"
exec /opt/venv/bin/python "$here/demo.py"
"""

# what /opt/vp/build.sh does
WALK = """
import importlib, pkgutil
import atlas_doc_parser as p
for m in pkgutil.walk_packages(p.__path__, "atlas_doc_parser."):
    if m.name != "atlas_doc_parser.tests.case":
        importlib.import_module(m.name)
"""


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, CI="true", LC_ALL="C.UTF-8", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", **(env or {}))
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def main(spec, check):
    s = runpy.run_path(spec)
    bid = s["ID"]
    scr = f"/tmp/plant-{bid}"
    shutil.rmtree(scr, ignore_errors=True)
    shutil.copytree("/repo", scr, symlinks=True, ignore=shutil.ignore_patterns("__pycache__", "tmp", ".venv"))
    out = os.path.join(HERE, "seeded", bid)
    ok = True
    try:
        base = sh(["git", "rev-list", "--max-parents=0", "HEAD"], scr)[1].split()[0]
        for path, old, new in s["EDITS"]:
            p = os.path.join(scr, path)
            t = open(p).read()
            if t.count(old) < 1:
                print(bid, "NO MATCH in", path, repr(old[:80]))
                return 1
            if t.count(old) > 1:
                print(bid, "AMBIGUOUS in", path, t.count(old))
                return 1
            open(p, "w").write(t.replace(old, new))
        diff = sh(["git", "diff", "HEAD"], scr)[1]
        # removed lines must be lines of the original repository
        orig = 0
        for path, old, new in s["EDITS"]:
            o = set(sh(["git", "show", f"{base}:{path}"], scr)[1].splitlines())
            gone = [l for l in old.splitlines() if l not in new.splitlines()]
            orig += sum(l in o for l in gone)
        if not orig:
            print(bid, "WARNING: removes no line of the original repository")
        os.makedirs(out, exist_ok=True)
        open(f"{out}/patch.diff", "w").write(diff)
        open(f"{out}/demo.sh", "w").write(DEMO_SH)
        os.chmod(f"{out}/demo.sh", 0o755)
        open(f"{out}/demo.py", "w").write(s["DEMO"].lstrip("\n"))
        for n, t in s.get("FILES", {}).items():
            open(f"{out}/{n}", "w").write(t)
        json.dump({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(f"{out}/meta.json", "w"), indent=1)
        rc, o = sh(["git", "apply", "--check", f"{out}/patch.diff"], "/repo")
        if rc:
            print(bid, "patch does not apply", o); ok = False
        rc, o = sh(["/opt/venv/bin/python", "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider"], scr, {"PYTHONPATH": scr})
        last = o.strip().splitlines()[-1]
        if " failed" in last or "64 passed" not in last:
            print(bid, "TESTS:", last); ok = False
        rc, o = sh(["/opt/venv/bin/python", "-c", WALK], scr, {"PYTHONPATH": scr})
        if rc:
            print(bid, "BUILD:", o[-500:]); ok = False
        rc0, o0 = sh(["bash", f"{out}/demo.sh"], "/repo", timeout=300)
        rc1, o1 = sh(["bash", f"{out}/demo.sh"], scr, timeout=300)
        if rc0:
            print(bid, "demo fails on the unchanged tree:\n", o0[-1500:]); ok = False
        if not rc1:
            print(bid, "demo passes on the changed tree\n", o1[-500:]); ok = False
        if not ok:
            return 1
        print(bid, "kept; demo:", (o1.strip().splitlines() or ["-"])[-1][:160])
        if check:
            props = [s["PROP"]] + list(s.get("ALSO", []))
            for c in props:
                rc, o = sh([sys.executable, "check.py", c], HERE, {"VERIF_REPO": scr})
                v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
                print(bid, c, "CAUGHT" if rc == 1 and v else f"MISSED rc={rc}", (o.strip().splitlines() or [""])[-3:][0][:300])
    finally:
        shutil.rmtree(scr, ignore_errors=True)
    return 0


if __name__ == "__main__":
    rc = 0
    for a in sys.argv[1:]:
        if a.endswith(".py"):
            rc |= main(a, "--check" in sys.argv)
    sys.exit(rc)
