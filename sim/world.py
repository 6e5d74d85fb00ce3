"""What a run works with: the library under simulation, its outside world
(log destination, settings, clock, time zone), and observation helpers."""
import copy
import dataclasses
import gc
import io
import json
import logging
import os
import pickle
import resource
import sys
import traceback

from . import adf, boot, core, faults


class Env:
    """Lives in a zygote; every run gets a forked copy of it."""

    def __init__(self, kind):
        self.kind = kind  # warm | cold
        self.api = self.settings = self.exc = None
        if kind == "warm":
            self.load()
        self.codes = boot.library_codes()
        self.support = boot.support_codes()

    def load(self):
        self.api, self.settings, self.exc = boot.load()

    def restart(self):
        """The library as a process started now, in this environment, has it."""
        for m in [m for m in sys.modules if m == boot.PKG or m.startswith(boot.PKG + ".")]:
            del sys.modules[m]
        self.load()

    def instrument(self, grain, inject=False, support=False):
        codes = self.codes + (self.support if support else [])
        core.instrument(codes, grain, inject)


# --------------------------------------------------------------------------
# observation
# --------------------------------------------------------------------------
def walk(x, opt=None):
    """Type-strict image of a parsed element: class, public compared fields."""
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        out = []
        for f in dataclasses.fields(x):
            if f.name.startswith("_") or not f.compare:
                continue
            out.append((f.name, walk(getattr(x, f.name))))
        return ("N", type(x).__name__, tuple(sorted(out)))
    if isinstance(x, dict):
        return ("d",) + tuple(sorted(((repr(k), walk(v)) for k, v in x.items()), key=lambda kv: kv[0]))
    if isinstance(x, (list, tuple)):
        return ("l",) + tuple(walk(v) for v in x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return (type(x).__name__, repr(x))
    return ("o", type(x).__name__)


VAGUE = ("RecursionError", "MemoryError")


def outcome(fn, image=adf.freeze):
    """Run fn; what the caller observes, as comparable data."""
    try:
        v = fn()
    except core.SimAbort:
        raise
    except BaseException as e:
        n = type(e).__name__
        return ("exc", n, "" if n in VAGUE else str(e)[:400])
    with core.quiet():
        return ("ok", image(v))


def short(o, n=300):
    s = repr(o)
    return s if len(s) <= n else s[: n // 2] + " ... " + s[-n // 2:]


def diff_text(a, b):
    """Where two outcomes differ."""
    sa, sb = repr(a), repr(b)
    i = 0
    while i < min(len(sa), len(sb)) and sa[i] == sb[i]:
        i += 1
    lo = max(0, i - 60)
    return f"expected ...{sa[lo:i+120]}... got ...{sb[lo:i+120]}..."


class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__(msg)
        self.cls = cls
        self.msg = msg


# --------------------------------------------------------------------------
# processes
# --------------------------------------------------------------------------
def _read_all(fd):
    chunks = []
    while True:
        b = os.read(fd, 1 << 20)
        if not b:
            return b"".join(chunks)
        chunks.append(b)


def isolated(fn):
    """Result of fn() in a forked copy of this process ("runs alone in a fresh
    process")."""
    assert core.CURRENT is None
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = ("ok", fn())
            except Violation as e:
                out = ("viol", e.cls, e.msg)
            except BaseException:
                out = ("err", traceback.format_exc())
            data = pickle.dumps(out)
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:
            code = 9
        finally:
            os._exit(code)
    os.close(w)
    data = _read_all(r)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if not data:
        sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
        if sig == 24:
            raise Violation("hang", "a single call alone in a fresh process does not finish (CPU limit)")
        if sig == 11:
            raise Violation("crash", "a single call alone in a fresh process crashes the interpreter")
        raise core.HarnessError(f"isolated child died, status {st}")
    out = pickle.loads(data)
    if out[0] == "viol":
        raise Violation(out[1], out[2])
    if out[0] == "err":
        raise core.HarnessError(out[1])
    return out[1]


# --------------------------------------------------------------------------
# the log destination
# --------------------------------------------------------------------------
class Sink(logging.Handler):
    """Log destination with injectable faults, attached to the library logger.

    As the standard handlers do, it reports its own I/O errors through
    ``handleError`` and does not raise them into the caller."""

    def __init__(self):
        super().__init__()
        self.records = []
        self.plan = {}  # record number -> fault
        self.fired = {}
        self.reentry = None
        self.n = 0
        self.busy = False

    def emit(self, record):
        with core.quiet():
            self.n += 1
            f = self.plan.get(str(self.n))
            self.records.append((record.levelname, record.getMessage()))
            core.note("LOG " + record.getMessage()[:60])
        if f is None:
            return
        self.fired[f] = self.fired.get(f, 0) + 1
        if f == "slow":
            core.sim_sleep(5)
            return
        if f == "reenter":
            if self.reentry is not None and not self.busy:
                self.busy = True
                try:
                    self.reentry()
                finally:
                    self.busy = False
            return
        if f == "toggle":
            self.toggle()
            return
        if f == "raise":  # the signal arrives while the handler is at work
            raise self.make()
        try:
            if f == "enospc":
                raise OSError(28, "No space left on device")
            if f == "eio":
                raise OSError(5, "Input/output error")
            if f == "broken":
                raise BrokenPipeError(32, "Broken pipe")
            if f == "closed":
                raise ValueError("I/O operation on closed file")
            if f == "encode":
                "\ud800".encode("utf-8")
        except Exception:
            self.handleError(record)

    def handleError(self, record):
        pass


def attach_sink(env, plan=None):
    lg = logging.getLogger("atlas_doc_parser")
    for h in list(lg.handlers):
        lg.removeHandler(h)
    s = Sink()
    s.plan = plan or {}
    lg.addHandler(s)
    lg.setLevel(logging.DEBUG)
    lg.propagate = False
    lg.disabled = False
    return s


# --------------------------------------------------------------------------
# one run in its own process
# --------------------------------------------------------------------------
CPU_LIMIT = 60


EMPTY = {"crc": 0, "steps": 0, "switches": 0, "sim_ms": 0, "calls": 0, "faults": {}, "probes": {}, "trace": []}


def run_child(prop, plan, env, wall=None):
    """Execute a plan in a forked copy of the zygote; returns a result dict."""
    cpu = getattr(prop, "CPU_LIMIT", CPU_LIMIT)
    wall = wall or 3 * cpu
    import select
    import signal
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            gc.disable()
            logging.raiseExceptions = False
            try:
                res = execute(prop, plan, env)
            except BaseException:
                res = {"harness": traceback.format_exc()}
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps(res))
        except BaseException:
            code = 9
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    left = wall
    timed = False
    while True:
        ok, _, _ = select.select([r], [], [], left)
        if not ok:
            os.kill(pid, signal.SIGKILL)
            timed = True
            break
        b = os.read(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if timed:
        return {"harness": f"run exceeded {wall}s of wall time"}
    if not chunks:
        sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
        if sig == 24:
            return dict(EMPTY, viol={"class": "hang", "msg": f"a call did not finish within {cpu}s of CPU time"})
        if sig == 11:
            return dict(EMPTY, viol={"class": "crash", "msg": "the interpreter crashed"})
        return {"harness": f"run died with status {st}"}
    return pickle.loads(b"".join(chunks))


class Run:
    """Collects what happened in one execution."""

    def __init__(self, plan=None):
        self.plan = plan or {}
        self.faults = {}
        self.probes = {}
        self.crc = 0
        self.trace = []
        self.steps = 0
        self.switches = 0
        self.sim_ms = 0
        self.calls = 0

    def fault(self, kind, n=1):
        if n:
            self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        if n:
            self.probes[name] = self.probes.get(name, 0) + n

    def mix(self, x):
        import zlib
        self.crc = zlib.crc32(repr(x).encode("utf-8", "backslashreplace"), self.crc)

    def simulate(self, fns, sched, max_steps=None):
        """Run callables as simulated threads; returns their results."""
        if max_steps is None:
            # what the largest honest plan needs, several times over
            size = len(repr(self.plan.get("docs")))
            calls = sum(len(t) for t in self.plan.get("threads") or [] if isinstance(t, list))
            max_steps = 3_000_000 + 400 * size * max(2, calls)
        sim = core.Sim(core.make_policy(sched, len(fns)), max_steps)
        for f in fns:
            sim.spawn(f)
        sim.run()
        self.trace = sim.trace
        self.steps += sim.total
        self.switches += sim.switches
        self.sim_ms += sim.clock_ms
        self.mix((sim.crc, sim.total))
        if sim.failure is not None:
            raise Violation(sim.failure[0], sim.failure[1])
        return [t.result for t in sim.tasks], sim


def from_library(e):
    from . import boot
    home = os.path.join(boot.ROOT[0], boot.PKG) + os.sep
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith((home, boot.PKG_DIR + os.sep)):
            return True
        tb = tb.tb_next
    return False


def execute(prop, plan, env):
    run = Run(plan)
    viol = None
    try:
        prop.execute(plan, env, run)
    except Violation as e:
        viol = {"class": e.cls, "msg": e.msg}
    except Exception as e:
        # a call the harness relies on to succeed failed inside the library
        if not from_library(e):
            raise
        viol = {"class": "unexpected-error:" + type(e).__name__, "msg": f"{type(e).__name__}: {e}"[:300]}
    return {
        "viol": viol, "crc": run.crc, "trace": run.trace, "steps": run.steps, "switches": run.switches,
        "sim_ms": run.sim_ms, "faults": run.faults, "probes": run.probes, "calls": run.calls,
    }
