"""C17: API module generation is complete, repeatable and safe to retry."""
import importlib
import io
import locale
import os
import random
import shutil
import subprocess
import sys
import tempfile

from .. import boot, core, disk, world
from . import c04

ID = "C17"
ZYGOTE = "cold"
CLOCK = True
RUNS = {"quick": 900, "thorough": 60000}
MUST_PROBE = ["fault_fired", "read_fault", "list_fault", "write_fault", "crashed", "retried_in_process", "added_module", "imported_before", "file_repaired", "interrupted", "sources_changed"]
REAL = ["atlas_doc_parser.gen_code and every module it scans (a copy of the working tree)", "jinja2", "a scratch directory on a real file system"]
STUB = ["directory order, I/O errors, torn writes and crash points (seeded file seam)", "standard output"]
STATE = {}
READ = ("open-r", "read", "list")


def begin(scratch):
    d = os.path.join(scratch, "locales")
    os.makedirs(d)
    if shutil.which("localedef"):
        for name, cs in (("ja_JP", "EUC-JP"), ("de_DE", "ISO-8859-1")):
            subprocess.run(["localedef", "-i", name, "-f", cs, os.path.join(d, f"{name}.{cs}")], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
    os.environ["LOCPATH"] = d
    STATE["scratch"] = scratch


def setup(env):
    import jinja2, inspect, textwrap, contextlib, tempfile, stat  # noqa
    import jinja2.ext, jinja2.loaders, jinja2.sandbox, jinja2.debug  # noqa
    jinja2.Template("{% for a in b -%}{{ a.c }}{% endfor -%}").render(b=[])
    files = {}
    for root, dirs, names in os.walk(boot.PKG_DIR):
        dirs[:] = sorted(x for x in dirs if x not in ("__pycache__", "tests", "docs"))
        for n in sorted(names):
            if n.endswith(".pyc"):
                continue
            p = os.path.join(root, n)
            with open(p, "rb") as f:
                files[os.path.relpath(p, boot.REPO)] = f.read()
    STATE["files"] = files
    STATE["shipped"] = files[API]


API = os.path.join(boot.PKG, "api.py")
INITIAL = ["shipped", "shipped", "stale", "missing", "empty", "truncated", "garbage", "syntax", "binary", "crlf", "longer"]
JUNK = ["marks/mark_link.py~", "marks/.mark_foo.py.swp", "nodes/node_foo.txt", "nodes/#node_doc.py#", "marks/mark_foo.pyc", "nodes/xnode_foo.py", "marks/Mark_foo.py", "nodes/node_foo.py.orig", "api.py.tmp", "templates/api.py.jinja~", "marks/node_foo.txt"]


def gen(rng, i, tier):
    added = []
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        kind = rng.choice(["mark", "node"])
        added.append([kind, rng.choice(["aaa", "zzz", "text_x", "m1", "code_2"]) + str(len(added)), rng.getrandbits(12)])
    grow = []
    if rng.random() < 0.3:
        grow = [None if rng.random() < 0.3 else [rng.choice(["mark", "node"]), rng.choice(["aab", "zzy", "late"]) + str(k), rng.getrandbits(12)] for k in range(rng.choice([2, 3]))]
    fault = None
    x = rng.random()
    if x < 0.7:
        want = rng.choice(["any", "list", "open-r", "read", "write", "write", "open-w", "close", "template"])
        kinds = {
            "list": ["EIO", "EMFILE", "ESTALE", "ENOMEM", "crash", "crash_after", "interrupt"],
            "open-r": ["EIO", "EMFILE", "ESTALE", "EACCES", "crash", "interrupt", "crash_after"],
            "read": ["EIO", "ENOMEM", "crash", "interrupt"],
            "template": ["EIO", "EMFILE", "EACCES", "crash", "interrupt"],
            "write": ["torn_crash", "torn_error", "ENOSPC", "EIO", "crash", "crash_after", "interrupt", "EDQUOT"],
            "open-w": ["EACCES", "EROFS", "EMFILE", "crash", "crash_after", "interrupt"],
            "close": ["EIO", "ENOSPC", "torn_crash", "crash_after", "interrupt", "EDQUOT"],
            "any": ["EIO", "crash", "crash_after", "interrupt"],
        }[want]
        fault = [want, rng.getrandbits(30), rng.choice(kinds), rng.choice([0, 0.01, 0.3, 0.9, 0.999])]
    return {
        "docs": [], "initial": rng.choice(INITIAL), "at": rng.random(), "order": rng.getrandbits(30), "added": added, "fault": fault,
        "imports": [rng.randrange(10**6) for _ in range(rng.choice([0, 0, 1, 3, 10]))], "junk": [rng.choice(JUNK) for _ in range(rng.choice([0, 0, 1, 3]))],
        "cwd": rng.choice(["scratch", "root", "package", "marks"]), "locale": rng.choice([None, None, "C", "ja_JP.EUC-JP", "de_DE.ISO-8859-1"]),
        "inject": [rng.choice(["KeyboardInterrupt", "SystemExit", "MemoryError", "RecursionError"]), rng.getrandbits(30)] if fault is None and rng.random() < 0.6 else None,
        "stdout": rng.choice(["ok", "ok", "broken", "none"]), "call": rng.choice(["main", "main", "generate"]), "again": rng.choice([1, 2]), "grow": grow,
    }


def module_source(kind, name, bits):
    """A new module and the names the export list must gain from it."""
    K = kind.capitalize()
    camel = K + name.title().replace("_", "")
    base = "BaseMark" if kind == "mark" else "BaseNode"
    names = [camel]
    src = f"import dataclasses\nimport typing as T\nfrom ..mark_or_node import Base, {base}\nfrom ..type_enum import TypeEnum\nfrom ..type_hint import T_DATA\n"
    src += f"class _Hidden{camel}(Base):\n    pass\nclass Helper:\n    pass\n"
    if bits & 1:
        src += f"class {camel}Attrs(Base):\n    pass\n"
        names.append(camel + "Attrs")
    if bits & 2:
        a = f"T_{kind.upper()}_{name.upper()}"
        src += f"{a} = T.Union[str, int]\n"
        names.append(a)
    if bits & 4:
        src += f"class {camel}Zed(Base):\n    pass\n"
        names.append(camel + "Zed")
    src += f"class {camel}({base}):\n    pass\n"
    if bits & 8:
        src += f"# {'x' * 3000}\n"
    return src, sorted(names)


def add_modules(root, lines, added):
    """New module files; lines (an export list) gains their names."""
    for kind, name, bits in added:
        src, names = module_source(kind, name, bits)
        rel = os.path.join(boot.PKG, kind + "s", f"{kind}_{name}.py")
        p = os.path.join(root, rel)
        with open(p, "w") as f:
            f.write(src)
        boot.UNCACHED.add(p)
        start = lines.index("# Marks" if kind == "mark" else "# Nodes") + 2
        end = start
        while end < len(lines) and lines[end].startswith("from ."):
            end += 1
        mod = f"{kind}_{name}"
        pos = start
        while pos < end and lines[pos].split()[1].split(".")[-1] + ".py" < mod + ".py":
            pos += 1
        lines[pos:pos] = [f"from .{kind}s.{mod} import {n}" for n in names]


def write_tree(root, plan):
    """A copy of the package with the plan's initial state; returns the
    expected export list."""
    for rel, data in STATE["files"].items():
        p = os.path.join(root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)
    lines = STATE["shipped"].decode("utf-8").split("\n")
    add_modules(root, lines, plan["added"])
    for j in plan["junk"]:
        with open(os.path.join(root, boot.PKG, j), "wb") as f:
            f.write(b"this is not python (\n")
    want = "\n".join(lines).encode("utf-8")
    api = os.path.join(root, API)
    s, kind = STATE["shipped"], plan["initial"]
    cut = s[: int(plan["at"] * len(s))]
    new = {
        "shipped": s, "stale": b"\n".join(x for k, x in enumerate(s.split(b"\n")) if k % 7), "empty": b"", "truncated": cut, "garbage": b"{% for x in y %}\n" + cut,
        "syntax": cut + b"\nfrom .marks import (\n", "binary": bytes(range(256)) * 40, "crlf": s.replace(b"\n", b"\r\n"), "longer": s + b"from .nope import Nope\n" * 400,
    }.get(kind)
    boot.UNCACHED.add(api)
    if new is None:
        os.unlink(api)
    else:
        with open(api, "wb") as f:
            f.write(new)
    return want


def get(root):
    try:
        with open(os.path.join(root, API), "rb") as f:
            return f.read()
    except FileNotFoundError:
        return None


class Broken(io.StringIO):
    def write(self, s):
        raise BrokenPipeError(32, "Broken pipe")


def process(plan, root, faulty, run_n):
    """One generator process; reports how it ended (crashes never return)."""
    boot.ROOT[0] = root
    os.chdir({"scratch": root, "root": "/", "package": os.path.join(root, boot.PKG), "marks": os.path.join(root, boot.PKG, "marks")}[plan["cwd"]])
    if plan["locale"]:
        try:
            locale.setlocale(locale.LC_ALL, plan["locale"])
        except locale.Error:
            pass
    if plan["stdout"] == "broken":
        sys.stdout = Broken()
    elif plan["stdout"] == "none":
        sys.stdout = None
    else:
        sys.stdout = io.StringIO()
    rng = random.Random(plan["order"] + run_n)
    d = disk.Disk(root, rng, faulty)
    out = {"before": []}
    mods = [m for m in STATE["mods"]]
    for n in plan["imports"]:
        try:
            importlib.import_module(mods[n % len(mods)])
            out["before"].append(mods[n % len(mods)])
        except Exception:  # the export list may be unusable at this point
            pass
    first = get(root)
    inj = plan["inject"] if faulty == "inject" else None
    d.fault = None if faulty == "inject" else faulty

    def call():
        g = importlib.import_module(boot.PKG + ".gen_code")
        if plan["call"] == "generate" and faulty is None:
            out["text"] = g.generate_api_py()
        g.main()

    def attempt(solo):
        try:
            if solo is not None:
                core.instrument([c for c in boot.library_codes() if os.path.basename(c.co_filename) in ("gen_code.py", "paths.py")], None, True)
                with core.Solo(*solo) as s:
                    try:
                        call()
                    finally:
                        out["solo"] = (s.count, s.fired)
            else:
                call()
            return ("ok",)
        except BaseException as e:
            return ("exc", type(e).__name__, str(e)[:200].replace(root, "ROOT"))
    if inj:
        def count():
            o = {}
            with disk.Disk(root, random.Random(plan["order"] + run_n), None):
                core.instrument([c for c in boot.library_codes() if os.path.basename(c.co_filename) in ("gen_code.py", "paths.py")], None, True)
                with core.Solo() as s:
                    try:
                        call()
                    except BaseException:
                        pass
                return s.count
        n = world.isolated(count)
        restore(root, first)
        with d:
            end = attempt((1 + inj[1] % max(1, n), lambda: c04.make(inj[0])))
        core.instrument(boot.library_codes(), None)
    else:
        with d:
            end = attempt(None)
    out.update(end=end, fired=d.fired, log=d.log, file=get(root), first=first)
    if end[0] == "exc" and faulty is not None:
        # the user simply tries again
        d.fault = None
        with d:
            out["retry"] = attempt(None)
        out["retry_file"] = get(root)
    return out


def growing(plan, root, want):
    """One long-lived process runs the generator, the sources gain modules or
    lose one, and it runs the generator again."""
    boot.ROOT[0] = root
    sys.stdout = io.StringIO()
    g = importlib.import_module(boot.PKG + ".gen_code")
    rng = random.Random(plan["order"])
    extra = []
    for step in plan["grow"]:
        if step is None and extra:
            kind, name, bits = extra.pop(rng.randrange(len(extra)))
            os.unlink(os.path.join(root, boot.PKG, kind + "s", f"{kind}_{name}.py"))
        elif step is not None:
            extra.append(step)
        lines = want.decode("utf-8").split("\n")
        add_modules(root, lines, extra)
        importlib.invalidate_caches()
        with disk.Disk(root, rng, None):
            g.main()
        got, exp = get(root), "\n".join(lines).encode("utf-8")
        if got != exp:
            raise world.Violation("stale-list", f"same process, after the sources changed ({step}): {delta(exp, got)}")
    return True


def restore(root, data):
    p = os.path.join(root, API)
    if data is None:
        if os.path.exists(p):
            os.unlink(p)
    else:
        with open(p, "wb") as f:
            f.write(data)


def may_crash(fn):
    """Run fn in a forked process that may die at an injected crash."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            import pickle, traceback
            try:
                res = ("ok", fn())
            except world.Violation as e:
                res = ("viol", e.cls, e.msg)
            except BaseException:
                res = ("err", traceback.format_exc())
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps(res))
        finally:
            os._exit(0)
    os.close(w)
    data = world._read_all(r)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == disk.CRASH:
        return None
    import pickle
    if not data:
        raise core.HarnessError(f"generator process died: {st}")
    res = pickle.loads(data)
    if res[0] == "viol":
        raise world.Violation(res[1], res[2])
    if res[0] == "err":
        raise core.HarnessError(res[1])
    return res[1]


def delta(want, got):
    if got is None:
        return "no file"
    a, b = want.decode("utf-8", "replace").split("\n"), got.decode("utf-8", "replace").split("\n")
    for k in range(max(len(a), len(b))):
        x, y = a[k] if k < len(a) else None, b[k] if k < len(b) else None
        if x != y:
            return f"line {k + 1}: expected {x!r}, got {y!r} ({len(want)} and {len(got)} bytes)"
    return "same text"


def clean_run(plan, root, want, k, what):
    p = dict(plan, inject=None, stdout="ok")
    o = may_crash(lambda: process(p, root, None, k))
    if o["end"][0] != "ok":
        raise world.Violation("generation-fails", f"{what}: {o['end'][1:]}")
    if o["file"] != want:
        raise world.Violation("wrong-export-list", f"{what}: {delta(want, o['file'])}")
    if "text" in o and o["text"].encode() != want:
        raise world.Violation("wrong-export-list", f"{what}, returned text: {delta(want, o['text'].encode())}")
    return o


def execute(plan, env, run):
    if "mods" not in STATE:
        STATE["mods"] = [r[:-3].replace(os.sep, ".") for r in sorted(STATE["files"]) if r.endswith(".py") and not r.endswith("__init__.py") and "vendor" not in r]
    root = tempfile.mkdtemp(dir=STATE["scratch"])
    try:
        body(plan, run, root)
    finally:
        os.chdir("/")
        shutil.rmtree(root, ignore_errors=True)


def body(plan, run, root):
    want = write_tree(root, plan)
    first = get(root)
    if plan["added"]:
        run.probe("added_module")
    fault = None
    if plan["fault"]:
        # number the operations of an undisturbed run, then aim
        dry = clean_run(dict(plan, call="main"), root, want, 0, "undisturbed run")
        restore(root, first)
        kind, at, what, frac = plan["fault"]
        log = dry["log"]
        ops = [n + 1 for n, (k, rel) in enumerate(log) if kind == "any" or k == kind or kind == "template" and k in READ and "templates" in rel]
        if not ops:  # this implementation has no such operation
            ops = [n + 1 for n, (k, rel) in enumerate(log) if k not in READ] or [1]
        fault = (ops[at % len(ops)], what, frac)
    elif plan["inject"]:
        fault = "inject"
    o = may_crash(lambda: process(plan, root, fault, 0))
    run.calls += 1
    now = get(root)
    if o is None:
        run.probe("crashed")
        run.fault("crash:" + plan["fault"][0] + ":" + plan["fault"][2])
        kind = log[fault[0] - 1]
        if kind[0] in READ and now != first:
            raise world.Violation("reading-destroys", f"crash at {kind}: the export list changed: {delta(first or b'', now)}")
        if now != want:
            run.probe("file_damaged")
    else:
        if o["before"]:
            run.probe("imported_before")
        if o["fired"]:
            run.probe("fault_fired")
            k, rel, f = o["fired"]
            run.fault(f"{f}:{k}")
            run.probe({"open-r": "read_fault", "read": "read_fault", "list": "list_fault"}.get(k, "write_fault"))
            if k in READ and o["end"][0] == "exc" and o["file"] != o["first"]:
                raise world.Violation("reading-destroys", f"{f} at {k} of {rel}: the export list changed: {delta(o['first'] or b'', o['file'])}")
        if o.get("solo") and o["solo"][1]:
            run.probe("interrupted")
            run.fault("interrupt:" + plan["inject"][0])
            touched = any(k not in READ for k, rel in o["log"])
            if not touched and o["file"] != o["first"]:
                raise world.Violation("reading-destroys", f"interrupt at {o['solo'][1]}: the export list changed")
        if o["end"][0] == "ok":
            if o["file"] != want:
                raise world.Violation("silent-failure", f"the generator reported success ({o['fired'] or o.get('solo')}): {delta(want, o['file'])}")
        elif not o["fired"] and not (o.get("solo") and o["solo"][1]) and plan["stdout"] == "ok":
            raise world.Violation("generation-fails", f"without a fault: {o['end'][1:]}")
        elif not o["fired"] and plan["stdout"] != "ok" and o["end"][1] == "BrokenPipeError":
            run.fault("stdout")
            if o["file"] != want:
                raise world.Violation("wrong-export-list", f"standard output broken: {delta(want, o['file'])}")
        if "retry" in o:
            run.probe("retried_in_process")
            if o["retry"][0] != "ok" and not (plan["stdout"] == "broken" and o["retry"][1] == "BrokenPipeError"):
                raise world.Violation("retry-fails", f"same process, after {o['end'][1:]}: {o['retry'][1:]}")
            if o["retry_file"] != want:
                raise world.Violation("retry-wrong", f"same process, after {o['end'][1:]}: {delta(want, o['retry_file'])}")
        if plan["order"] % 3 and "retry" in o:
            restore(root, o["file"])  # or: the retry happens in a new process
            now = o["file"]
    if get(root) != want:
        run.probe("file_repaired")
    for k in range(plan["again"]):
        clean_run(plan, root, want, 1 + k, f"run {k + 1} afterwards")
    if plan.get("grow"):
        run.probe("sources_changed")
        may_crash(lambda: growing(plan, root, want))
    run.mix((plan["initial"], o and (o["end"], o["fired"], o["log"], o.get("solo")), fault, plan["added"], plan["order"]))
