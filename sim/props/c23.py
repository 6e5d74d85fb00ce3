"""C23: long-running use leaves nothing behind: no documents, inputs or errors
kept alive, no growth, process-wide state as it was."""
import builtins
import copy
import dataclasses
import gc
import json
import locale
import logging
import math
import os
import random
import re
import signal
import sys
import threading
import time
import warnings
import weakref

from .. import adf, boot, clients, core, faults, ops, world
from . import c03, c04, c11

ID = "C23"
RUNS = {"quick": 2500, "thorough": 60000}
CPU_LIMIT = 240
MUST_PROBE = ["rounds", "retention_checked", "growth_checked", "interrupted", "failed_call", "threads_overlapped", "stack", "bad_state_start", "log_fault", "kept_results"]
EXC = ["KeyboardInterrupt", "SystemExit", "MemoryError", "RecursionError"]
KINDS = ["parse", "dict", "md", "mdi", "json", "again", "sub", "mark"]


def gen(rng, i, tier):
    docs = [ops.mixed_doc(rng, size=rng.choice([1, 2, 4, 8]), malformed=0.2) for _ in range(rng.choice([1, 1, 2]))]
    threads = rng.random() < 0.4
    if not threads and rng.random() < 0.5:
        docs[0] = narrow(rng)
    events = []
    for _ in range(rng.choice([1, 2, 4])):
        k = rng.choice(KINDS)
        x = rng.random()
        if not threads and x < 0.35:
            events.append(["int:" + rng.choice([k, "render", "render", "render_i", "save"]), rng.randrange(len(docs)), rng.getrandbits(16), rng.choice(EXC), round(rng.choice([rng.random(), 1 - 0.3 * rng.random()]), 4)])
        elif not threads and x < 0.4:
            events.append(["stack", rng.randrange(len(docs)), rng.randrange(5, 100)])
        else:
            events.append([k, rng.randrange(len(docs)), rng.getrandbits(16)])
    plan = {
        "docs": docs, "events": events, "warn": rng.random() < 0.6, "odd": rng.random() < 0.4, "seed": rng.getrandbits(30),
        "sink": rng.choice([None, None, "enospc", "broken", "raise"]), "fresh": rng.random() < 0.8, "gc": rng.random() < 0.85,
    }
    if threads:
        nt = rng.choice([2, 3])
        g = rng.choice(["line", "call", "call"])
        plan["threads"] = [[[rng.choice(KINDS), rng.randrange(len(docs)), rng.getrandbits(16)] for _ in range(rng.choice([1, 2]))] for _ in range(nt)]
        if rng.random() < 0.6:  # all at the same place
            op = [rng.choice(["md", "mdi", "dict", "again"]), 0, 0]
            plan["threads"] = [[list(op)] for _ in range(nt)]
            docs[0] = narrow(rng)
            g = rng.choice(["line", "line", "call"])
        plan["grain"] = g
        plan["sched"] = core.gen_policy(rng, {"line": 1200, "call": 300}[plan["grain"]])
        plan["rounds"] = rng.choice([3, 6])
    else:
        plan["rounds"] = rng.choice([5, 5, 150] if tier == "quick" else [5, 150, 150, 600])
    return plan


def narrow(rng):
    """One kind of element, every kind as likely as any other."""
    by = {}
    for _ in range(3):
        for e, m, p in adf.elements(ops.mixed_doc(rng, size=16, rare=0.5)):
            if not m and adf.known(e, m):
                by.setdefault(e["type"], []).append(e)
    e = rng.choice(by[rng.choice(sorted(by))])
    if rng.random() < 0.5:
        return e
    return {"type": "doc", "version": 1, "content": [copy.deepcopy(e) for _ in range(rng.choice([1, 3]))], "#": 0}


TOK = re.compile(r"q\d+z")


def fresh(d, n):
    """The same document with different texts, names and numbers."""
    if isinstance(d, dict):
        out = {}
        for k, v in d.items():
            if k == "type" and isinstance(v, str):
                out[k] = v if v in adf.A or v in adf.MARKS or v in ("file", "link", "external", "sub", "sup") else f"{v}{n}"
            elif k == "timestamp" and isinstance(v, str) and v.isdigit():
                out[k] = str(int(v) + 86400000 * n)
            elif k in ("order", "width", "height", "colspan") and type(v) is int:
                out[k] = v + n
            elif k in ("localId", "id", "title", "collection", "panelColor", "language", "url", "href") and isinstance(v, str) and v:
                out[k] = f"{v}{n}"
            else:
                out[k] = fresh(v, n)
        return out
    if isinstance(d, list):
        return [fresh(v, n) for v in d]
    if isinstance(d, str):
        return TOK.sub(lambda m: m.group(0) + str(n), d)
    return d


# --------------------------------------------------------------------------
# what a process consists of besides the library's results
# --------------------------------------------------------------------------
def loggers():
    out = {"": logging.getLogger()}
    out.update({n: l for n, l in logging.root.manager.loggerDict.items() if isinstance(l, logging.Logger)})
    return out


def state():
    u = os.umask(0o22)
    os.umask(u)
    s = {
        "recursion limit": sys.getrecursionlimit(), "switch interval": sys.getswitchinterval(), "gc": (gc.isenabled(), gc.get_threshold(), gc.get_debug(), len(gc.callbacks)),
        "integer string limit": sys.get_int_max_str_digits(), "locale": locale.setlocale(locale.LC_ALL, None), "directory": os.getcwd(), "environment": dict(os.environ), "umask": u,
        "module path": (tuple(sys.path), tuple(map(id, sys.meta_path)), tuple(map(id, sys.path_hooks))), "tracing": (sys.gettrace(), sys.getprofile(), threading.gettrace(), threading.getprofile()),
        "hooks": (id(sys.excepthook), id(sys.unraisablehook), id(threading.excepthook), id(sys.displayhook), id(builtins.__import__)),
        "streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)), "threads": threading.active_count(),
        "signals": tuple(signal.getsignal(x) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGPIPE, signal.SIGCHLD, signal.SIGUSR1)), "timer": signal.getitimer(signal.ITIMER_REAL)[1],
        "warning filters": (tuple(map(repr, warnings.filters)), id(warnings.showwarning)), "random numbers": random.getstate(),
        "log switch": logging.root.manager.disable, "log errors": logging.raiseExceptions, "log record factory": id(logging.getLogRecordFactory()), "log class": id(logging.getLoggerClass()),
        "open files": tuple(sorted(os.listdir("/proc/self/fd"))) if os.path.isdir("/proc/self/fd") else (), "time zone": (time.tzname, os.environ.get("TZ")),
        "builtins": tuple(sorted(vars(builtins))), "text width": id(__import__("textwrap").TextWrapper), "json": (id(json.JSONEncoder.default), id(json.dumps)),
        "copy table": len(copy._deepcopy_dispatch), "pickle table": len(__import__("copyreg").dispatch_table), "exit hooks": __import__("atexit")._ncallbacks(),
    }
    for n, l in loggers().items():
        s["logger " + (n or "root")] = (l.level, l.disabled, l.propagate, tuple(map(id, l.handlers)), tuple(map(id, l.filters)))
    dc = sys.modules.get("decimal")
    if dc:
        s["decimals"] = repr(dc.getcontext())
    return s


def oddities(env, seed):
    """A process set up differently from the ordinary."""
    rng = random.Random(seed)
    if rng.random() < 0.5:
        sys.setrecursionlimit(rng.choice([800, 1500, 5000]))
    if rng.random() < 0.4:
        sys.setswitchinterval(rng.choice([0.001, 0.1]))
    if rng.random() < 0.4:
        gc.set_threshold(rng.choice([0, 10 ** 6, 10 ** 8]))
    if rng.random() < 0.4:
        logging.disable(rng.choice([0, logging.INFO, logging.WARNING]))
    if rng.random() < 0.4:
        random.seed(rng.random())
    if rng.random() < 0.4:
        warnings.simplefilter(rng.choice(["error", "always", "ignore"]))
    if rng.random() < 0.3:
        logging.getLogger("atlas_doc_parser").setLevel(rng.choice([logging.ERROR, logging.NOTSET]))
    if rng.random() < 0.3:
        signal.signal(signal.SIGUSR1, lambda *a: None)
    if rng.random() < 0.3:
        os.environ["PARSER_MODE"] = "x"
    if rng.random() < 0.3:
        sys.set_int_max_str_digits(1000)


def from_lib(t):
    return (getattr(t, "__module__", None) or "").split(".")[0] == boot.PKG


def alive():
    """Documents, parts of documents and errors of the library in memory."""
    return [x for x in gc.get_objects() if from_lib(type(x)) and (dataclasses.is_dataclass(x) or isinstance(x, BaseException)) and not isinstance(x, type)]


class Input(dict):
    """Input data whose life can be followed."""
    __slots__ = ("__weakref__",)


class Text(str):
    pass


# --------------------------------------------------------------------------
def execute(plan, env, run):
    if not plan["docs"]:
        return
    base = [adf.clean(d) for d in plan["docs"]]
    sink = world.attach_sink(env)
    env.settings.WARN_UNIMPLEMENTED_TYPE = plan["warn"]
    if plan["sink"]:
        sink.plan = Every(plan["sink"])
        sink.make = lambda: KeyboardInterrupt("injected")
    gc.set_threshold(10 ** 7)
    if plan.get("gc", True):
        gc.enable()
    if plan["odd"]:
        oddities(env, plan["seed"])
        run.probe("bad_state_start")
    if plan.get("threads"):
        with_threads(plan, env, run, base, sink)
    else:
        alone(plan, env, run, base, sink)
    run.mix((plan["seed"], len(base)))


class Every(dict):
    def __init__(self, f):
        self.f = f

    def get(self, k, d=None):
        return self.f


def data_of(plan, base, n):
    return [fresh(d, n) for d in base] if plan["fresh"] else copy.deepcopy(base)


def perform(env, run, data, e, lengths, num):
    """One event; what it returns or raises is dropped at once."""
    kind = e[0]
    if kind.startswith("int:") and lengths is not None and len(lengths) <= num:
        f = target(env, data, e)
        with core.Solo() as s:  # how long is it?
            o = safely(f)
        lengths.append(s.count)
        return o
    if kind == "stack":
        try:
            c03.with_stack(e[2], lambda: env.api.parse_node(data[e[1] % len(data)]).to_markdown(ignore_error=True))
        except KeyboardInterrupt:
            pass
        return "stack"
    if kind.startswith("int:"):
        f = target(env, data, e)
        with core.Solo(1 + int(e[4] * lengths[num]), lambda: c04.make(e[3])) as s:
            o = safely(f)
        return "fired" if s.fired else o
    return call(env, data, e)


def target(env, data, e):
    """What is to be interrupted: a whole call, or only the use of a document
    that was parsed before."""
    kind = e[0][4:]
    if kind in KINDS:
        return lambda: ops.do_op(env, data, [kind, e[1], e[2]])
    try:
        node = env.api.parse_node(data[e[1] % len(data)])
    except BaseException:
        return lambda: None
    if kind == "save":
        return lambda: node.to_dict()
    return lambda: node.to_markdown(ignore_error=kind == "render_i")


def call(env, data, op):
    return safely(lambda: ops.do_op(env, data, op))


def safely(f):
    try:
        f()
        return "ok"
    except core.SimAbort:
        raise
    except BaseException:
        return "exc"


def compare(before, what, skip=False):
    after = state()
    for k in before:
        if k == "threads" and skip:
            continue
        if before[k] != after.get(k):
            raise world.Violation("state-changed:" + k.split()[0], f"{what} changed the process's {k}: {world.short(before[k], 100)} became {world.short(after.get(k), 100)}")


LAZY = ("copy table", "pickle table", "exit hooks", "builtins", "module path")  # what a first use may add to


def at_first(before, what, skip=False):
    compare({k: v for k, v in before.items() if k not in LAZY}, what, skip)


def alone(plan, env, run, base, sink):
    start = state()
    inject = any(e[0].startswith("int:") for e in plan["events"])
    if inject:
        env.instrument(None, inject=True, support=True)
    lengths = []
    for n in range(2):
        for num, e in enumerate(plan["events"]):
            if n == 0 and not e[0].startswith("int:"):
                lengths.append(0)
            perform(env, run, data_of(plan, base, n), e, lengths, num)
            at_first(start, f"{e[0]} of document {e[1] % len(base)}, in a young process,")
    gc.collect()
    known = {id(x) for x in alive()}
    rounds = plan["rounds"]
    run.probe("rounds", rounds)
    before = state()
    marks = []

    def many(count, n):
        for _ in range(count):
            n += 1
            data = data_of(plan, base, n)
            for num, e in enumerate(plan["events"]):
                r = perform(env, run, data, e, lengths, num)
                run.calls += 1
                if r == "fired":
                    run.fault("interrupt:" + e[3])
                    run.probe("interrupted")
                elif r == "stack":
                    run.fault("stack_limit")
                    run.probe("stack")
                elif r == "exc":
                    run.probe("failed_call")
                if rounds <= 10:
                    compare(before, f"{e[0]} of document {e[1] % len(base)} ({r})")
            sink.records.clear()
            if plan["sink"]:
                run.probe("log_fault")
        return n
    n = 2
    if rounds <= 10:
        n = many(rounds, n)
        kept(plan, env, run, base, n)
        left(plan, env, run, base, many, n, known)
    else:
        n = many(rounds, n)  # bounded caches fill up
        growth(plan, run, many, n, rounds)
        gc.collect()
        compare(before, f"{2 * rounds} rounds")
    core.instrument(env.codes + env.support, None)


def kept(plan, env, run, base, n):
    """While its results are in use the input may be gone, and the other way
    round."""
    data = data_of(plan, base, n)
    refs = []

    def inp(d):
        if isinstance(d, dict):
            out = Input((k, inp(v)) for k, v in d.items())
            refs.append(weakref.ref(out))
            return out
        return [inp(v) for v in d] if isinstance(d, list) else d
    for d in data:
        try:
            x = inp(d)
            node = env.api.parse_node(x)
            md = node.to_markdown(ignore_error=True)
            dd = node.to_dict()
        except BaseException:
            continue
        finally:
            x = None
        run.probe("kept_results")
        gc.collect()
        if any(r() is not None and type(r()) is Input and not held(r(), (node, md, dd)) for r in refs):
            raise world.Violation("input-kept", "after the caller dropped its input, a part of it stays in memory although no result holds it")
        node = None
        gc.collect()
        del md, dd


def held(x, results):
    """Is x reachable from the results themselves?"""
    todo, seen = list(results), set()
    while todo:
        y = todo.pop()
        if y is x:
            return True
        if id(y) in seen:
            continue
        seen.add(id(y))
        if isinstance(y, dict):
            todo += list(y.values())
        elif isinstance(y, (list, tuple)):
            todo += list(y)
        elif dataclasses.is_dataclass(y):
            todo += list(vars(y).values()) if hasattr(y, "__dict__") else [getattr(y, f.name) for f in dataclasses.fields(y)]
    return False


def left(plan, env, run, base, many, n, known):
    """Nothing of the dropped documents is in memory any more - except what a
    cache of bounded size holds, which more of the same drives out."""
    def count():
        gc.collect()
        return len([x for x in alive() if id(x) not in known])
    c = [count()]
    run.probe("retention_checked")
    if c[0]:
        for size in (200, 400, 1600, 3200):
            n = many(size, n)
            c.append(count())
            if c[-1] <= c[-2]:
                return
        raise world.Violation("documents-kept", f"elements of dropped documents still in memory after {plan['rounds']}, 200, 600, 2200 and 5400 more rounds: {c}")


def blocks():
    for _ in range(2):
        gc.collect()
    return sys.getallocatedblocks()


def growth(plan, run, many, n, rounds):
    a = blocks()
    n = many(rounds, n)
    b = blocks()
    n = many(rounds, n)
    c = blocks()
    run.probe("growth_checked")
    if min(b - a, c - b) < 0.5 * rounds:
        return
    seen = [b - a, c - b]
    for size in (1500, 3000, 3000):  # a large but bounded cache?
        n = many(size, n)
        d = blocks()
        seen.append(d - c)
        if d - c < 0.5 * size:
            return
        c = d
    raise world.Violation("memory-grows", f"memory blocks in use grow without end: by {seen} in {rounds}, {rounds}, 1500, 3000 and 3000 rounds of {[e[0] for e in plan['events']]}")


def with_threads(plan, env, run, base, sink):
    known = None
    before = None
    counts = []

    def once(n, sched):
        data = data_of(plan, base, n)

        def client(t):
            def body():
                for op in t:
                    call(env, data, op)
            return body
        env.instrument(plan["grain"])
        run.simulate([client(t) for t in plan["threads"]], sched)
        core.instrument(env.codes + env.support, None)
        sink.records.clear()
        run.calls += sum(map(len, plan["threads"]))

    def count():
        gc.collect()
        return len([x for x in alive() if id(x) not in known])
    start = state()
    once(0, plan["sched"])
    at_first(start, "a first round of concurrent calls", True)
    gc.collect()
    known = {id(x) for x in alive()}
    before = state()
    run.probe("rounds", plan["rounds"])
    for n in range(plan["rounds"]):
        once(n + 1, plan["sched"] if plan["sched"].get("kind") == "replay" else dict(plan["sched"], seed=plan["sched"].get("seed", 0) + n))
        compare(before, f"round {n} of concurrent calls", True)
    if run.switches:
        run.probe("threads_overlapped")
    run.probe("retention_checked")
    counts = [count()]
    if counts[0]:
        n = plan["rounds"]
        for size in (150, 300, 1200, 2400):
            for _ in range(size):
                n += 1
                data = data_of(plan, base, n)
                for t in plan["threads"]:
                    for op in t:
                        call(env, data, op)
                sink.records.clear()
            counts.append(count())
            if counts[-1] <= counts[-2]:
                return
        raise world.Violation("documents-kept", f"elements of dropped documents still in memory: {counts}")
