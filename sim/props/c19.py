"""C19: the working directory is always restored by the test-runner helpers."""
import importlib
import io
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile

from .. import boot, core, world
from . import c04

ID = "C19"
ZYGOTE = "cold"
RUNS = {"quick": 4000, "thorough": 200000}
MUST_PROBE = ["child_started", "child_unstartable", "child_failed", "interrupted_child", "interrupted", "nested", "bad_target", "body_moved", "preview", "body_raised", "chdir_failed"]
REAL = ["atlas_doc_parser.vendor.pytest_cov_helper (working tree)", "contextlib, subprocess.run above Popen", "real scratch directories, os.chdir and os.getcwd"]
STUB = ["child processes (simulated Popen with seeded outcomes)", "interrupts (seeded points in the helper's code, its body and the child's run)", "os.chdir failures"]
STATE = {}


def begin(scratch):
    STATE["scratch"] = scratch


def setup(env):
    import contextlib, functools  # noqa


EXC = ["KeyboardInterrupt", "SystemExit", "MemoryError", "RecursionError", "OSError", "ValueError", "GeneratorExit", "StopIteration", "TimeoutError"]
CHILD = ["ok", "ok", "fail", "signal", "missing", "denied", "nomem", "interrupt_start", "interrupt_wait", "exit_wait", "mem_wait", "badcwd", "unicode"]
TARGET = ["a", "a", "b", "a/deep/er", "u n\u00ef\u4e2d", "link", "same", "missing", "file", "rel", "parent", "dot"]


def gen_step(rng, depth=0):
    s = {
        "fn": rng.choice(["temp", "temp", "unit", "cov", "decorated"] if depth == 0 else ["temp", "unit", "cov"]), "target": rng.choice(TARGET), "child": [rng.choice(CHILD), rng.choice(CHILD)],
        "body": rng.choice([None, None, "raise", "raise", "moved", "moved_raise", "gone", "break", "close"]), "exc": rng.choice(EXC), "path": rng.random() < 0.7,
        "inject": [rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "SystemExit", "MemoryError"]), rng.getrandbits(30)] if rng.random() < 0.45 and depth == 0 else None,
        "preview": rng.random() < 0.3, "folder": rng.random() < 0.4, "py": rng.random() < 0.3, "platform": rng.choice(["linux", "linux", "sunos5", "win32"]), "sub": [],
        "chdir": rng.choice([None, None, None, "EIO", "EACCES", "ENOMEM"]),
    }
    if depth < 2 and rng.random() < 0.35:
        s["sub"] = [gen_step(rng, depth + 1) for _ in range(rng.choice([1, 2]))]
    return s


def gen(rng, i, tier):
    return {"docs": [], "steps": [gen_step(rng) for _ in range(rng.choice([1, 1, 2, 4]))], "start": rng.choice(["home", "home", "a", "rootdir", "gone"])}


class Child:
    """What subprocess needs of Popen; how it goes is the plan's choice."""
    current = None

    def __init__(self, *a, **kw):
        try:
            self._start(*a, **kw)
        except BaseException:
            Child.current.over()
            raise

    def _start(self, args, *a, **kw):
        w = Child.current
        w.point("spawn")
        kind = w.next_child()
        w.started.append(os.path.realpath(kw["cwd"] if kw.get("cwd") is not None else os.getcwd()))
        self.args = args
        self.pid = 4242
        self.stdin = self.stdout = self.stderr = None
        self.returncode = None
        self.kind = kind
        w.run.fault("child:" + kind, 0 if kind == "ok" else 1)
        if kind == "missing":
            w.run.probe("child_unstartable")
            raise FileNotFoundError(2, "No such file or directory: 'pytest'")
        if kind == "denied":
            w.run.probe("child_unstartable")
            raise PermissionError(13, "Permission denied: 'pytest'")
        if kind == "nomem":
            w.run.probe("child_unstartable")
            raise OSError(12, "Cannot allocate memory")
        if kind == "badcwd":
            raise NotADirectoryError(20, "Not a directory")
        if kind == "unicode":
            raise UnicodeEncodeError("utf-8", "\ud800", 0, 1, "surrogates not allowed")
        if kind == "interrupt_start":
            w.run.probe("interrupted_child")
            raise KeyboardInterrupt("injected")
        w.run.probe("child_started")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def _end(self):
        try:
            return self._wait()
        finally:
            Child.current.over()

    def _wait(self):
        w = Child.current
        w.point("wait")
        if self.kind in ("interrupt_wait", "exit_wait", "mem_wait"):
            k, self.kind = self.kind, "done"
            w.run.probe("interrupted_child")
            raise {"interrupt_wait": KeyboardInterrupt, "exit_wait": SystemExit, "mem_wait": MemoryError}[k]("injected")
        if self.returncode is None:
            self.returncode = {"fail": 1, "signal": -9}.get(self.kind, 0)
            if self.returncode:
                w.run.probe("child_failed")
        return self.returncode

    def wait(self, timeout=None):
        return self._end()

    def communicate(self, input=None, timeout=None):
        self._end()
        return None, None

    def poll(self):
        return self.returncode

    def kill(self):
        self.returncode = -9

    terminate = kill

    def send_signal(self, s):
        self.kill()


class World:
    def __init__(self, run, home):
        self.run = run
        self.home = home
        self.children = []
        self.started = []
        self.fired = None
        self.bad = None
        self.depth = 0
        self.last = False

    def over(self):
        """The run has ended: putting things back is not interrupted again."""
        if self.depth == 0 and self.last:
            core._solo = None

    def next_child(self):
        return self.children.pop(0) if self.children else "ok"


def where():
    try:
        st = os.stat(".")
        return (st.st_dev, st.st_ino)
    except OSError as e:
        return ("?", e.errno)


def cwd():
    try:
        return os.getcwd()
    except OSError:
        return None


def execute(plan, env, run):
    home = tempfile.mkdtemp(dir=STATE["scratch"])
    try:
        body(plan, run, os.path.realpath(home))
    finally:
        os.chdir("/")
        shutil.rmtree(home, ignore_errors=True)


def body(plan, run, home):
    for d in ("home", "a/deep/er", "b", "u n\u00ef\u4e2d", "gone"):
        os.makedirs(os.path.join(home, d))
    os.symlink(os.path.join(home, "b"), os.path.join(home, "link"))
    with open(os.path.join(home, "file"), "w") as f:
        f.write("x")
    start = {"home": os.path.join(home, "home"), "a": os.path.join(home, "a"), "rootdir": home, "gone": os.path.join(home, "gone")}[plan["start"]]
    os.chdir(start)
    m = importlib.import_module(boot.PKG + ".vendor.pytest_cov_helper")
    if plan["start"] == "gone":
        os.rmdir(start)
    subprocess.Popen = Child
    w = World(run, home)
    Child.current = w
    codes = [c for c in boot.library_codes() if os.path.basename(c.co_filename) == "pytest_cov_helper.py"]
    real_chdir = os.chdir
    for n, s in enumerate(plan["steps"]):
        before, name = where(), cwd()
        o = None
        inj = s["inject"]
        if inj:
            def dry():
                return go(m, s, w, home, run, codes, real_chdir, None)[1]
            count = world.isolated(lambda: dry())
            o, _ = go(m, s, w, home, run, codes, real_chdir, (1 + inj[1] % max(1, count), inj[0]))
        else:
            o, _ = go(m, s, w, home, run, codes, real_chdir, None)
        run.calls += 1
        if w.fired:
            run.probe("interrupted")
            run.fault("interrupt:" + inj[0])
        if w.bad:
            raise world.Violation("directory-not-restored", f"step {n}: {w.bad}")
        if where() != before or cwd() != name:
            raise world.Violation("directory-not-restored", f"step {n} {s['fn']} to {s['target']!r} ended with {o}{' after an interrupt at ' + w.fired if w.fired else ''}: now in {rel(cwd(), home)}, was in {rel(name, home)}")
        run.mix((n, o, w.fired, [rel(x, home) for x in w.started]))
        if s["fn"] in ("unit", "cov") and not w.fired and not s["chdir"] and not s["preview"] and name and w.usable and s["child"][0] in ("ok", "fail", "signal") and (o != "ok" or not w.started):
            raise world.Violation("run-not-made", f"step {n} {s['fn']} to {s['target']!r}: the test run was {'made' if w.started else 'not made'}, the helper ended with {o}")
        if w.fired is None and not s["chdir"]:
            for got, want in w.expected:
                if got != want:
                    raise world.Violation("wrong-directory", f"step {n} {s['fn']}: the child ran in {rel(got, home)}, not in {rel(want, home)}")


def rel(p, home):
    return p if p is None else os.path.relpath(p, home) if p.startswith(home) else p


def target(s, home):
    t = s["target"]
    p = {"same": cwd() or home, "missing": os.path.join(home, "nope"), "rel": "..", "parent": home, "dot": "."}.get(t) or os.path.join(home, t)
    return p


def go(m, s, w, home, run, codes, real_chdir, inject):
    """One helper call; (how it ended, injectable points passed)."""
    w.started, w.fired, w.expected = [], None, []
    w.bad = None
    w.usable = os.path.isdir(target(s, home))
    out = sys.stdout
    sys.stdout = io.StringIO()
    plat = sys.platform
    real = {"n": 0}

    def chdir(p):
        real["n"] += 1
        if real["n"] == 1 and s["chdir"]:
            run.probe("chdir_failed")
            run.fault("chdir:" + s["chdir"])
            import errno
            raise OSError(getattr(errno, s["chdir"]), "injected")
        return real_chdir(p)
    if s["chdir"]:
        os.chdir = chdir
    core.instrument(codes, None, True, True)
    solo = core.Solo(inject[0], lambda: c04.make(inject[1])) if inject else core.Solo()
    try:
        with solo:
            w.solo = solo
            w.point = lambda what: point(w, solo, what)
            o = attempt(lambda: perform(m, s, w, home, run, 0))
    finally:
        os.chdir = real_chdir
        sys.stdout = out
        sys.platform = plat
        core.instrument(codes, None)
    w.fired = solo.fired
    return o, solo.count


def point(w, solo, what):
    """Body and child run are injectable instants as well."""
    if core._solo is not solo:
        return
    solo.count += 1
    if solo.count == solo.nth:
        core._solo = None
        solo.fired = what
        raise solo.make()


def attempt(fn):
    try:
        fn()
        return "ok"
    except BaseException as e:
        return type(e).__name__


class hold:
    """The run is over: cleaning up is not interrupted again."""

    def __enter__(self):
        return self

    def __exit__(self, *a):
        core._solo = None


def perform(m, s, w, home, run, depth):
    t = target(s, home)
    if not os.path.isdir(t):
        run.probe("bad_target")
    want = os.path.realpath(t) if os.path.isdir(t) else None
    n0 = len(w.started)
    w.children = list(s["child"]) + w.children
    if s["fn"] in ("unit", "cov"):
        if s["preview"]:
            sys.platform = s["platform"]
        w.depth, w.last = depth, True
        try:
            if s["fn"] == "unit":
                m.run_unit_test(os.path.join(home, "test_x.py"), t)
            else:
                if s["preview"]:
                    run.probe("preview")
                m.run_cov_test(os.path.join(home, "test_x.py"), "pkg.mod" + (".py" if s["py"] else ""), t, os.path.join(home, "htmlcov"), preview=s["preview"], is_folder=s["folder"])
        finally:
            w.depth = depth - 1
            if want and len(w.started) > n0:
                w.expected.append((w.started[n0], want))
        return
    arg = pathlib.Path(t) if s["path"] else t
    if s["fn"] == "decorated":
        @m.temp_cwd(arg)
        def inner():
            with hold():
                inside(m, s, w, home, run, depth)
        inner()
        return
    if s["body"] in ("break", "close"):
        def users():
            with m.temp_cwd(arg) as p:
                with hold():
                    inside(m, s, w, home, run, depth)
                    yield p
        g = users()
        next(g)
        g.close()
        return
    with m.temp_cwd(arg):
        with hold() if depth == 0 else core.quiet():
            inside(m, s, w, home, run, depth)


def inside(m, s, w, home, run, depth):
    w.point("body")
    for x in s["sub"]:
        run.probe("nested")
        before = where()
        try:
            perform(m, x, w, home, run, depth + 1)
        except Exception:
            pass
        if where() != before:
            w.bad = w.bad or f"nested {x['fn']} to {x['target']!r}"
    w.point("body")
    b = s["body"]
    if b in ("moved", "moved_raise"):
        run.probe("body_moved")
        os.chdir(os.path.join(home, "b"))
    if b == "gone":
        run.probe("body_moved")
        d = os.path.join(home, "tmpgone")
        os.mkdir(d)
        os.chdir(d)
        os.rmdir(d)
    w.point("body")
    if b in ("raise", "moved_raise"):
        run.probe("body_raised")
        raise c04.make(s["exc"])


def shrink(plan):
    for n in range(len(plan["steps"])):
        st = plan["steps"]
        if len(st) > 1:
            yield dict(plan, steps=st[:n] + st[n + 1:])
        for k, v in (("sub", []), ("inject", None), ("body", None), ("preview", False), ("chdir", None), ("child", ["ok", "ok"]), ("target", "a")):
            if st[n][k] != v:
                yield dict(plan, steps=st[:n] + [dict(st[n], **{k: v})] + st[n + 1:])
    if plan["start"] != "home":
        yield dict(plan, start="home")
