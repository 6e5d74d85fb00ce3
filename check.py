"""Entry point: check.py <PROPERTY> [--tier quick|thorough] [--runs N]
                check.py replay <FILE>"""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
WANT = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "CI": "true", "TZ": "UTC", "LC_ALL": "C.UTF-8"}
if __name__ == "__main__":
    if any(os.environ.get(k) != v for k, v in WANT.items()) and not os.environ.get("VERIF_RAW"):
        py = "/opt/venv/bin/python"
        if not os.path.exists(py):
            py = sys.executable
        os.execve(py, [py, "-B", os.path.abspath(__file__)] + sys.argv[1:], {**os.environ, **WANT, "VERIF_RAW": "1"})
    sys.path.insert(0, HERE)
    ap = argparse.ArgumentParser()
    ap.add_argument("what")
    ap.add_argument("file", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int)
    a = ap.parse_args()
    from sim import runner
    try:
        if a.what == "replay":
            rc = runner.replay(a.file)
        else:
            rc = runner.check(a.what, a.tier, a.seed, a.runs, a.workers)
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
