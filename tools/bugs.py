"""bugs.py [IDS...] [--all]   (development aid, not used by any check)

Runs the quick check of each planted bug's property (--all: every check)
against a scratch copy of /repo with the bug applied; prints one line each."""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(os.path.join(HERE, "seeded")))
    for b in ids:
        d = os.path.join(HERE, "seeded", b)
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        scr = f"/tmp/bug-{b}"
        shutil.rmtree(scr, ignore_errors=True)
        shutil.copytree("/repo", scr, symlinks=True, ignore=shutil.ignore_patterns("__pycache__", "tmp", ".venv"))
        try:
            subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=scr, check=True)
            for c in [prop] if "--all" not in sys.argv else [prop] + [x for x in (f"C{k:02d}" for k in range(1, 20)) if x != prop]:
                p = subprocess.run([sys.executable, "check.py", c], cwd=HERE, env=dict(os.environ, VERIF_REPO=scr), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                hit = p.returncode == 1 and f"VIOLATION property={c} " in p.stdout
                tail = [l for l in p.stdout.splitlines() if l.startswith("seed ")] or p.stdout.splitlines()[-2:]
                print(b, c, "CAUGHT" if hit else f"missed rc={p.returncode}", (tail or [""])[0][:220], flush=True)
        finally:
            shutil.rmtree(scr, ignore_errors=True)


main()
