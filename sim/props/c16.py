"""C16: byte-identical results in every process and environment."""
import ctypes
import json
import os
import shutil
import subprocess
import tempfile

from .. import adf, boot, core, faults, ops, world

ID = "C16"
CLOCK = False
RUNS = {"quick": 500, "thorough": 20000}
MUST_PROBE = ["process", "failing", "unknown", "malformed", "parsed"]
REAL = ["atlas_doc_parser (working tree) in a freshly started CPython without simulator hooks", "operating-system process start, environment, locale data"]
STUB = ["the choice of hash seed, locale, encoding, time zone, directory, flags, import order, document order, address layout (seeded)", "log destination (recording handler)"]
RULE = "one freshly started interpreter per seed; distinct: different hash of the drawn environment and of all results"
LOCALES = [("tr_TR", "UTF-8"), ("de_DE", "ISO-8859-1"), ("ar_SA", "UTF-8"), ("ja_JP", "EUC-JP")]
OPTIONAL = ["client", "samples", "schema", "helper", "case", "gen_code"]
ENVS = {
    "TZ": [None, "UTC", "XXX-14", "YYY12", "EST5EDT,M3.2.0,M11.1.0", "Asia/Tokyo", ":bogus"],
    "LC_ALL": [None, "C", "POSIX", "C.UTF-8", "tr_TR.UTF-8", "de_DE.ISO-8859-1", "ar_SA.UTF-8", "ja_JP.EUC-JP", "xx_YY"],
    "LANG": [None, "C", "tr_TR.UTF-8", "en_US.UTF-8"],
    "PYTHONUTF8": [None, "0", "1"],
    "PYTHONCOERCECLOCALE": [None, "0"],
    "PYTHONIOENCODING": [None, "ascii", "latin-1", "utf-16"],
    "PYTHONMALLOC": [None, "malloc", "debug"],
    "PYTHONDEVMODE": [None, None, "1"],
    "PYTHONWARNDEFAULTENCODING": [None, "1"],
    "HOME": [None, "/nonexistent", "/"],
    "COLUMNS": [None, "1", "400"],
    "PYTHONSAFEPATH": [None, "1"],
    "CI": ["true", None],
    "NO_COLOR": [None, "1"],
}
FLAGS = [[], [], ["-O"], ["-OO"], ["-B"], ["-s"], ["-E"], ["-X", "utf8=0"], ["-X", "dev"], ["-b"], ["-u"], ["-X", "int_max_str_digits=0"]]
STATE = {}


def begin(scratch):
    """Once per check: locale definitions for the child processes."""
    d = os.path.join(scratch, "locales")
    os.makedirs(d)
    if shutil.which("localedef"):
        for name, cs in LOCALES:
            subprocess.run(["localedef", "-i", name, "-f", cs, os.path.join(d, f"{name}.{cs}")], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
    STATE["locpath"] = d
    STATE["scratch"] = scratch


def setup(env):
    mods = []
    for path in sorted(boot._codes):
        rel = os.path.relpath(path, boot.REPO)[:-3].replace(os.sep, ".")
        if rel.endswith(".__init__"):
            rel = rel[: -len(".__init__")]
        mods.append(rel)
    STATE["mods"] = mods


def gen(rng, i, tier):
    docs = []
    for _ in range(rng.choice([4, 8, 14])):
        r = rng.random()
        docs.append(ops.mixed_doc(rng, size=rng.choice([3, 8, 20]), damage=0.5, unknown=0.5))
    if rng.random() < 0.5:
        docs.append(numbers(rng))
    env = {k: rng.choice(v) if rng.random() < 0.6 else v[0] for k, v in ENVS.items()}
    order = list(range(len(docs)))
    if rng.random() < 0.7:
        rng.shuffle(order)
    return {
        "docs": docs, "env": env, "flags": rng.choice(FLAGS), "hashseed": rng.choice([0, rng.randrange(1, 2**32), rng.randrange(1, 2**32)]),
        "order": order, "imports": [rng.randrange(10**6) for _ in range(rng.choice([0, 0, 1, 4, 12]))], "cwd": rng.choice(["scratch", "root", "repo", "gone", "package", "nasty"]),
        "setlocale": rng.random() < 0.6, "junk": rng.choice([0, 1, 1000, 12345]), "gc": rng.choice(["on", "on", "off", "often"]),
        "stdio": rng.choice(["null", "null", "closed", "closed_err"]), "umask": rng.choice([0o022, 0o777]), "warn": rng.random() < 0.6,
    }


def numbers(rng):
    """Everything that shows numbers and days, with values whose usual written
    form differs from place to place."""
    g = adf.Gen(rng, size=20)
    d = {"#": g.nid(), "type": "doc", "version": 1, "content": []}
    for _ in range(rng.choice([2, 5])):
        e = g.node(rng.choice(["orderedList", "orderedList", "paragraph", "table", "mediaSingle", "taskList"]), 2)
        for x, m, p in adf.elements(e):
            if x["type"] == "orderedList":
                x["attrs"] = {"order": rng.choice([999, 1000, 12345, 1234567, 10**9, -5000, 100000])}
            elif x["type"] in ("paragraph", "taskItem"):
                x.setdefault("content", []).append({"#": g.nid(), "type": "date", "attrs": {"timestamp": str(g.timestamp())}})
        d["content"].append(e)
    return d


def spawn(plan, data, scratch):
    mods = STATE["mods"]
    job = os.path.join(scratch, "job.json")
    res = os.path.join(scratch, "result.json")
    with open(job, "w", encoding="utf-8") as f:
        json.dump({
            "docs": data, "order": [n for n in plan["order"] if n < len(data)] + [n for n in range(len(data)) if n not in plan["order"]],
            "imports": [mods[n % len(mods)] for n in plan["imports"]], "optional": OPTIONAL, "junk": plan["junk"], "gc": plan["gc"], "setlocale": plan["setlocale"], "warn": plan["warn"],
        }, f, ensure_ascii=True)
    e = {k: v for k, v in plan["env"].items() if v is not None}
    e["PYTHONHASHSEED"] = str(plan["hashseed"])
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONPYCACHEPREFIX"] = os.path.join(scratch, "pyc")
    e["LOCPATH"] = STATE["locpath"]
    e["PATH"] = "/usr/bin:/bin"
    import sys
    args = [sys.executable, "-B", "-X", "pycache_prefix=" + os.path.join(scratch, "pyc")] + plan["flags"] + [os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "envchild.py"), boot.REPO, job, res]
    if "-E" in plan["flags"]:  # the seed must still decide the hashing
        args.remove("-E")
    cwd = {"scratch": scratch, "root": "/", "repo": boot.REPO, "package": boot.PKG_DIR}.get(plan["cwd"])
    if cwd is None:
        cwd = os.path.join(scratch, "cwd " + ("\u00e9\u4e2d" if plan["cwd"] == "nasty" else "gone"))
        os.mkdir(cwd)
        if plan["cwd"] == "nasty":  # names a careless import would pick up
            for n in ("logger", "settings", "api", "exc", "constants", "typing_extensions", "func_args"):
                with open(os.path.join(cwd, n + ".py"), "w") as f:
                    f.write("raise RuntimeError('wrong module')\n")
    err = os.path.join(scratch, "stderr")
    pid = os.fork()
    if pid == 0:
        try:
            os.chdir(cwd)
            if plan["cwd"] == "gone":
                os.rmdir(cwd)
            try:
                ctypes.CDLL(None).personality(0x0040000)  # fixed address layout
            except Exception:
                pass
            null = os.open("/dev/null", os.O_RDWR)
            fd = os.open(err, os.O_CREAT | os.O_WRONLY | os.O_TRUNC, 0o600)
            os.dup2(null, 0)
            os.dup2(null, 1)
            os.dup2(fd, 2)
            if plan["stdio"] == "closed":
                for f in (0, 1, 2):
                    os.close(f)
            elif plan["stdio"] == "closed_err":
                os.close(2)
            os.closerange(3, 256)
            os.umask(plan["umask"] & 0o077)
            os.execve(args[0], args, e)
        finally:
            os._exit(97)
    _, st = os.waitpid(pid, 0)
    try:
        with open(res, encoding="utf-8") as f:
            return json.load(f), st, ""
    except (OSError, ValueError):
        try:
            with open(err, "rb") as f:
                return None, st, f.read()[-600:].decode("utf-8", "replace")
        except OSError:
            return None, st, ""


def expected(env, d, n, warn):
    """The same in the reference process."""
    sink = world.attach_sink(env)
    env.settings.WARN_UNIMPLEMENTED_TYPE = warn

    def attempt(fn):
        try:
            return ["ok", fn()]
        except RecursionError:
            return ["exc", "RecursionError", ""]
        except Exception as e:
            return ["exc", type(e).__name__, str(e)]
    got = attempt(lambda: env.api.NodeDoc.from_dict(d) if n % 2 else env.api.parse_node(d))
    o = {"warnings": [m for _, m in sink.records]}
    if got[0] == "exc":
        o["parse"] = got
    else:
        node = got[1]
        o["data"] = attempt(lambda: json.dumps(node.to_dict(), ensure_ascii=True))
        o["md"] = attempt(lambda: node.to_markdown())
        o["mdi"] = attempt(lambda: node.to_markdown(ignore_error=True))
        o["equal"] = attempt(lambda: env.api.parse_node(node.to_dict()) == node)
    return json.loads(json.dumps(o))


def execute(plan, env, run):
    data = json.loads(json.dumps([adf.clean(d) for d in plan["docs"]]))
    if not data:
        return
    want = {str(n): world.isolated(lambda: expected(env, d, n, plan["warn"])) for n, d in enumerate(data)}
    scratch = tempfile.mkdtemp(dir=STATE["scratch"])
    try:
        got, st, err = spawn(plan, data, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    where = {k: v for k, v in plan["env"].items() if v is not None}
    run.probe("process")
    run.calls += len(data)
    run.fault("hashseed", 1 if plan["hashseed"] else 0)
    for k in where:
        run.fault("env:" + k)
    for f in plan["flags"]:
        run.fault("flag:" + f)
    run.fault("cwd:" + plan["cwd"])
    run.fault("stdio:" + plan["stdio"])
    if plan["imports"]:
        run.fault("import-order")
    if plan["order"] != sorted(plan["order"]):
        run.fault("document-order")
    if got is None:
        raise world.Violation("process-fails", f"status {st}: {err}")
    for n in range(len(data)):
        w, g = want[str(n)], got[str(n)]
        for k in ("parse", "warnings", "data", "md", "mdi", "equal"):
            if w.get(k) != g.get(k):
                cls = {"parse": "error-differs", "warnings": "skips-differ", "data": "serialisation-differs", "md": "markdown-differs", "mdi": "markdown-differs", "equal": "equality-differs"}[k]
                raise world.Violation(cls, f"document {n} {k}: {world.diff_text(w.get(k), g.get(k))}")
        if "parse" in w:
            run.probe("malformed")
        else:
            run.probe("parsed")
            if w["md"][0] == "exc":
                run.probe("failing")
        if w["warnings"]:
            run.probe("unknown")
    run.mix((want, plan["hashseed"], sorted(where.items()), plan["flags"], plan["order"], plan["imports"], plan["cwd"], plan["stdio"]))


DEFAULT = {"flags": [], "hashseed": 0, "cwd": "scratch", "setlocale": False, "junk": 0, "gc": "on", "stdio": "null", "umask": 0o022, "warn": False}


def shrink(plan):
    n = len(plan["docs"])
    size = max(1, n // 2)
    while n > 1:
        for lo in range(0, n, size):
            docs = plan["docs"][:lo] + plan["docs"][lo + size:]
            if docs:
                yield dict(plan, docs=docs, order=[x for x in plan["order"] if x < len(docs)])
        if size == 1:
            break
        size //= 2
    for k, v in DEFAULT.items():
        if plan[k] != v:
            yield dict(plan, **{k: v})
    for k, v in plan["env"].items():
        if v is not None:
            yield dict(plan, env={**plan["env"], k: None})
    if plan["order"] != sorted(plan["order"]):
        yield dict(plan, order=sorted(plan["order"]))
