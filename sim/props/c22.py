"""C22: documents and errors arrive intact in other processes and in copies."""
import copy
import dataclasses
import math
import os
import pickle
import random
import signal
import struct
import sys
import traceback

from .. import adf, boot, core, faults, ops, world
from . import c04, c11, c15

ID = "C22"
ZYGOTE = "cold"
RUNS = {"quick": 1500, "thorough": 60000}
MUST_PROBE = ["cold_receiver", "error_sent", "part_sent", "sent_twice", "worker_crash", "interrupted", "threads_overlapped", "came_home", "edited_copy", "old_message", "relayed"]
REAL = ["atlas_doc_parser (working tree)", "pickle, copy, dataclasses, CPython's import system", "one operating-system process per simulated worker"]
STUB = ["the message queue between the processes (seeded order, duplicates, crashes, restarts)", "thread scheduling, locks and import locks", "clock"]
EXC = ["KeyboardInterrupt", "SystemExit", "MemoryError"]
LOOK = ["look", "look", "look", "render", "render_i", "relay", "copy", "child", "edit", "look2"]


def setup(env):
    for m in ("jinja2", "subprocess", "contextlib", "textwrap", "copyreg", "asyncio.exceptions", "encodings.latin_1", "encodings.raw_unicode_escape"):
        try:
            __import__(m)
        except ImportError:
            pass


def gen(rng, i, tier):
    docs = [ops.mixed_doc(rng, size=rng.choice([2, 4, 8, 16])) for _ in range(rng.choice([1, 2]))]
    if rng.random() < 0.3:
        d = copy.deepcopy(rng.choice(docs))
        d["type"] = rng.choice(adf.UNKNOWN_NODES + ["marks"])
        docs.append(d)
    events = []
    nw = rng.choice([1, 2, 3])
    for _ in range(rng.choice([3, 6, 12, 30] if tier == "quick" else [3, 6, 12, 30, 100])):
        x = rng.random()
        fault = None
        y = rng.random()
        if y < 0.12:
            fault = ["int", rng.choice(EXC), int(math.exp(rng.uniform(0, math.log(4000))))]
        elif y < 0.2:
            fault = ["crash", rng.choice(["before", "after"]), 0]
        elif y < 0.28:
            fault = ["twice", 0, 0]
        proto = rng.choice([0, 1, 2, 3, 4, 5, 5])
        if x < 0.2:
            events.append(["parse", rng.randrange(len(docs)), rng.getrandbits(16), proto])
        elif x < 0.3:
            events.append(["remote", rng.randrange(len(docs)), rng.randrange(nw), proto, fault])
        elif x < 0.75:
            events.append(["send", rng.getrandbits(16), rng.randrange(nw), rng.choice(LOOK), rng.getrandbits(16), proto, fault])
        elif x < 0.85:
            events.append(["home", rng.getrandbits(16)])
        elif x < 0.95:
            g = rng.choice(["line", "call", "op"])
            events.append(["threads", rng.getrandbits(16), [[rng.choice(["dumps", "deepcopy", "md", "mdi", "dict", "loads"]) for _ in range(rng.choice([1, 2]))] for _ in range(rng.choice([2, 3]))], g, core.gen_policy(rng, {"op": 3000, "line": 800, "call": 200}[g])])
        else:
            events.append(["restart", rng.randrange(nw)])
    return {"docs": docs, "events": events, "workers": [[rng.randrange(len(c15.TZS)), rng.random() < 0.65, rng.random() < 0.3] for _ in range(nw)], "warn": rng.random() < 0.4}


# --------------------------------------------------------------------------
# observation
# --------------------------------------------------------------------------
def err_image(e):
    d = {k: v for k, v in vars(e).items() if not k.startswith("__")}
    return ("error", type(e).__module__, type(e).__qualname__, str(e)[:400], adf.freeze(d))


def is_mark(x):
    return type(x).__module__.split(".")[-2:-1] == ["marks"]


def is_node(x):
    return hasattr(x, "to_markdown")


def look(x):
    """What the holder of x can see."""
    if isinstance(x, BaseException):
        return err_image(x)
    if not is_node(x):
        return ("plain", adf.freeze(x) if isinstance(x, (dict, list, str)) else world.walk(x))
    with core.quiet():
        w = world.walk(x)
    out = [w, world.outcome(lambda: x.to_dict())]
    if is_mark(x):
        return tuple(out + [world.outcome(lambda: x.to_markdown("abc|d"))])
    return tuple(out + [render(x, False), render(x, True)])


def render(x, ignore):
    try:
        return ("ok", x.to_markdown(ignore_error=ignore))
    except core.SimAbort:
        raise
    except Exception as e:
        return vague(err_image(e))


def vague(i):
    return i[:3] if i[0] == "error" and i[2] in world.VAGUE else i


def parts(x):
    """The parts of a node that have a life of their own."""
    out = []
    for f in ("marks", "content"):
        v = getattr(x, f, None)
        if isinstance(v, list):
            out += [y for y in v if is_node(y)]
    a = getattr(x, "attrs", None)
    if dataclasses.is_dataclass(a):
        out.append(a)
    return out


def parse(api, d):
    try:
        return api.parse_node(d)
    except Exception as e:
        e.__traceback__ = None
        return e


def act(cmd, x, arg):
    """What a worker does with what it received; returns the reply."""
    if cmd == "render" or cmd == "render_i":
        if isinstance(x, BaseException) or not is_node(x) or is_mark(x):
            return None
        try:
            return x.to_markdown(ignore_error=cmd == "render_i")
        except Exception as e:
            e.__traceback__ = None
            return e
    if cmd == "copy":
        k = arg % 3
        if k == 0 or isinstance(x, BaseException):
            return copy.deepcopy(x)
        if k == 1 or not dataclasses.is_dataclass(x):
            return copy.copy(x)
        return dataclasses.replace(x)
    if cmd == "child":
        ps = parts(x)
        return ps[arg % len(ps)] if ps else x
    return x


def edit(x, seen):
    """Spoil everything in x that can be changed."""
    if id(x) in seen:
        return
    seen.add(id(x))
    if dataclasses.is_dataclass(x):
        for f in dataclasses.fields(x):
            edit(getattr(x, f.name, None), seen)
    elif isinstance(x, list):
        for v in x:
            edit(v, seen)
        del x[:]
    elif isinstance(x, dict):
        for v in list(x.values()):
            edit(v, seen)
        x.clear()
    elif isinstance(x, BaseException):
        x.args = ()
        vars(x).clear()


# --------------------------------------------------------------------------
# worker processes
# --------------------------------------------------------------------------
def _send(fd, x):
    b = pickle.dumps(x)
    b = struct.pack(">I", len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _recv(fd):
    def exactly(n):
        out = b""
        while len(out) < n:
            c = os.read(fd, n - len(out))
            if not c:
                return None
            out += c
        return out
    h = exactly(4)
    if h is None:
        return None
    return pickle.loads(exactly(struct.unpack(">I", h)[0]))


class Worker:
    """A process that has not used the library yet."""

    def __init__(self, serve, *args):
        self.used = False
        a, b = os.pipe()
        c, d = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(b)
                os.close(c)
                serve(*args, a, d)
            finally:
                os._exit(0)
        os.close(a)
        os.close(d)
        self.out, self.inp = b, c

    def ask(self, msg):
        self.used = True
        _send(self.out, msg)
        r = _recv(self.inp)
        if r is None:
            raise core.HarnessError("worker died")
        if r[0] == "viol":
            raise world.Violation(r[1], r[2])
        if r[0] == "err":
            raise core.HarnessError(r[1])
        return r[1]

    def stop(self):
        if self.pid:
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
            os.close(self.out)
            os.close(self.inp)
            self.pid = None


def serve(env, conf, a, d):
    tz, warm, warn = conf
    c15._set_tz(c15.TZS[tz % len(c15.TZS)])
    if warm:
        env.settings.WARN_UNIMPLEMENTED_TYPE = warn
    world.attach_sink(env)

    def reply(m):
        run = world.Run()
        r = handle(env, run, m)
        return r, run.crc, run.switches, run.steps, run.probes
    loop(reply, a, d)


def serve_reference(env, plan, data, a, d):
    loop(lambda src: answer(env, plan, data, src), a, d)


def loop(reply, a, d):
    while True:
        m = _recv(a)
        if m is None:
            return
        try:
            _send(d, ("ok", reply(m)))
        except world.Violation as e:
            _send(d, ("viol", e.cls, e.msg))
        except BaseException as e:
            if isinstance(e, Exception) and world.from_library(e):
                _send(d, ("viol", "unexpected-error:" + type(e).__name__, f"in a worker: {type(e).__name__}: {e}"[:300]))
            else:
                _send(d, ("err", traceback.format_exc()))


def handle(env, run, m):
    kind, blob, arg, proto, fault, seed = m
    if kind == "parse":
        def job():
            import atlas_doc_parser.api as api
            return dump(parse(api, pickle.loads(blob)), proto)
    elif kind == "look":
        def job():
            return load(blob)
    elif kind == "look2":
        return two(env, run, blob, arg, seed)
    elif kind == "edit":
        x = load(blob)
        edit(x, set())
        return look(load(blob))  # the message itself is still good
    else:
        def job():
            return dump(act(kind, load(blob), arg), proto)
    if fault and fault[0] == "int":
        env.instrument(None, inject=True)
        with core.Solo(fault[2], lambda: c04.make(fault[1])) as s:
            try:
                job()
                got = None
            except BaseException as e:
                got = type(e).__name__
        core.instrument(env.codes + env.support, None)
        if s.fired:
            run.probe("interrupted")
            if got != fault[1] and fault[1] != "MemoryError":
                raise world.Violation("interrupt-lost", f"{kind}: {fault[1]} at {s.fired}: the receiver got {got}")
        elif got:
            raise world.Violation("cannot-receive", f"{kind}: {got}")
    elif fault and fault[0] == "twice":
        job()
    r = job()
    return look(r) if kind == "look" else r


def two(env, run, blob, arg, seed):
    """Two threads receive the same message at the same time."""
    rng = random.Random(seed)
    g = rng.choice(["line", "call"])
    out = []

    def body():
        with core.quiet():
            pass
        x = pickle.loads(blob)
        with core.quiet():
            out.append(look(x))
    env.instrument(g)
    run.simulate([c11.guard(body), c11.guard(body)], core.gen_policy(rng, {"line": 3000, "call": 600}[g]))
    core.instrument(env.codes + env.support, None)
    if run.switches:
        run.probe("threads_overlapped")
    if len(out) != 2:
        raise world.Violation("cannot-receive", f"only {len(out)} of two threads could read the message")
    if out[0] != out[1]:
        raise world.Violation("differs", f"two threads read different things: {world.diff_text(out[0], out[1])}")
    return out[0]


def dump(x, proto):
    """Pickled by C or (odd protocols now and then) by the Python code."""
    try:
        b = pickle.dumps(x, proto)
    except core.SimAbort:
        raise
    except Exception as e:
        raise world.Violation("cannot-send", f"{type(x).__name__}: {type(e).__name__}: {e}"[:300])
    return b


def load(b):
    try:
        return pickle.loads(b)
    except core.SimAbort:
        raise
    except Exception as e:
        raise world.Violation("cannot-receive", f"{type(e).__name__}: {e}"[:300])


# --------------------------------------------------------------------------
# the history
# --------------------------------------------------------------------------
def execute(plan, env, run):
    if not plan["docs"]:
        return
    data = [adf.clean(d) for d in plan["docs"]]
    assert boot.PKG not in sys.modules
    confs = plan["workers"]
    restarts = sum(1 for e in plan["events"] if e[0] == "restart" or (e[-1] and isinstance(e[-1], list) and e[-1][0] == "crash"))
    confs = confs + [confs[k % len(confs)] for k in range(restarts)]
    made = {k: Worker(serve, env, c) for k, c in enumerate(confs) if not c[1]}
    env.load()
    made.update({k: Worker(serve, env, c) for k, c in enumerate(confs) if c[1]})
    workers = [made[k] for k in range(len(plan["workers"]))]
    spare = [made[k] for k in range(len(plan["workers"]), len(confs))]
    reference = Worker(serve_reference, env, plan, data)
    try:
        history(plan, env, run, data, workers, spare, reference)
    finally:
        for w in workers + spare + [reference]:
            w.stop()


def answer(env, plan, data, src):
    """One expectation, computed in a process of its own."""
    n, path, made = src
    world.attach_sink(env)
    env.settings.WARN_UNIMPLEMENTED_TYPE = plan["warn"]
    return world.isolated(lambda: look(follow(env, copy.deepcopy(data[n]), path, made)))


def history(plan, env, run, data, workers, spare, reference):
    want = {}

    def expect(src):
        """What src looks like in a process that does nothing else."""
        if src not in want:
            want[src] = reference.ask(src)
        return want[src]

    def check(src, got, what):
        run.calls += 1
        w = expect(src)
        if got != w:
            raise world.Violation("differs", f"event {num}, document {src[0]} part {list(src[1])}, {what}: {world.diff_text(w, got)}")

    items, kept = [], {}  # messages: (source, bytes, event number); objects of this process

    def put(src, blob):
        items.append((src, blob, num))
        if expect(src)[0] == "error":
            run.probe("error_sent")
        if src[1]:
            run.probe("part_sent")

    def replace(k):
        workers[k].stop()
        if spare:
            workers[k] = spare.pop()
        return workers[k].pid

    def ask(k, msg, fault):
        w = workers[k]
        if not w.pid:
            return None
        if not w.used and not plan["workers"][k % len(plan["workers"])][1]:
            run.probe("cold_receiver")
        if fault and fault[0] == "crash":
            run.fault("worker_crash")
            run.probe("worker_crash")
            if fault[1] == "after":
                w.ask(msg)  # done, but the answer is lost with the worker
            if not replace(k):
                return None
            w = workers[k]
        elif fault:
            run.fault(fault[0] + (":" + fault[1] if fault[1] else ""))
        if fault and fault[0] == "twice":
            run.probe("sent_twice")
        r, crc, sw, st, pr = w.ask(msg)
        run.mix((crc, num))
        run.switches += sw
        run.steps += st
        for p, c in pr.items():
            run.probe(p, c)
        return (r,)

    world.attach_sink(env)
    env.settings.WARN_UNIMPLEMENTED_TYPE = plan["warn"]
    for num, e in enumerate(plan["events"]):
        kind = e[0]
        if kind == "parse":
            n = e[1] % len(data)
            src = (n, (), None)
            x = parse(env.api, copy.deepcopy(data[n]))
            check(src, look(x), "parsed")
            kept.setdefault(src, x)
            put(src, dump(x, e[3]))
        elif kind == "remote":
            n = e[1] % len(data)
            r = ask(e[2] % len(workers), ("parse", pickle.dumps(data[n]), 0, e[3], e[4], num), e[4])
            if r:
                put((n, (), None), r[0])
        elif kind == "send" and items:
            src, blob, born = items[e[1] % len(items)]
            if num - born > 10:
                run.probe("old_message")
            cmd = e[3]
            if src[2] and cmd in ("child", "render", "render_i"):
                cmd = "look"
            r = ask(e[2] % len(workers), (cmd, blob, e[4], e[5], e[6], num), e[6])
            if not r:
                continue
            if cmd in ("look", "look2", "edit"):
                check(src, r[0], f"received ({cmd})")
                if cmd == "edit":
                    run.probe("edited_copy")
            elif cmd in ("relay", "copy"):
                run.probe("relayed")
                put(src, r[0])
            elif cmd == "child":
                x = follow(env, copy.deepcopy(data[src[0]]), src[1], None)
                k = len(parts(x))
                put((src[0], src[1] + (e[4] % k,), None) if k and not isinstance(x, BaseException) else src, r[0])
            else:
                v = load(r[0])
                if v is not None:
                    put((src[0], src[1], cmd), r[0])
        elif kind == "home" and items:
            src, blob, born = items[e[1] % len(items)]
            x = load(blob)
            check(src, look(x), "back home")
            y = kept.get(src)
            if y is None and not src[2]:
                y = follow(env, copy.deepcopy(data[src[0]]), src[1], None)
                kept[src] = y
            if is_node(x) or dataclasses.is_dataclass(x):
                if not (x == y and y == x):
                    raise world.Violation("not-equal", f"event {num}: document {src[0]} part {list(src[1])} is not equal to itself after a round trip")
                if x is y:
                    raise world.Violation("not-a-copy", f"event {num}")
                run.probe("came_home")
            edit(x, set())
            if not src[2]:
                check(src, look(y), "at home, after the copy was changed")
                try:
                    c = copy.deepcopy(y)
                except Exception as err:
                    raise world.Violation("cannot-copy", f"{type(y).__name__}: {type(err).__name__}: {err}"[:300])
                check(src, look(c), "deep copy")
                edit(c, set())
                check(src, look(y), "at home, after its deep copy was changed")
        elif kind == "threads":
            objs = [(s, x) for s, x in kept.items() if is_node(x) and not is_mark(x)]
            if not objs:
                continue
            src, x = objs[e[1] % len(objs)]
            blob = dump(x, 5)
            res = []

            def client(t):
                def body():
                    for k in t:
                        if k == "dumps":
                            v = pickle.dumps(x)
                        elif k == "deepcopy":
                            v = copy.deepcopy(x)
                        elif k == "loads":
                            v = pickle.loads(blob)
                        elif k == "dict":
                            v = world.outcome(lambda: x.to_dict())
                        else:
                            v = render(x, k == "mdi")
                        with core.quiet():
                            res.append((k, v))
                return body
            env.instrument(e[3], support=True)
            got, _ = run.simulate([c11.guard(client(t)) for t in e[2]], e[4])
            core.instrument(env.codes + env.support, None)
            if run.switches:
                run.probe("threads_overlapped")
            for g in got:
                if isinstance(g, world.Violation):
                    raise g
            w = expect(src)
            for k, v in res:
                if k == "dumps":
                    check(src, look(load(v)), "pickled while in use")
                elif k in ("deepcopy", "loads"):
                    check(src, look(v), "copied while in use")
                elif v != w[{"dict": 1, "md": 2, "mdi": 3}[k]]:
                    raise world.Violation("differs", f"event {num}, {k} while being pickled: {world.diff_text(w, v)}")
        elif kind == "restart":
            run.fault("worker_restart")
            replace(e[1] % len(workers))
        run.mix((num, kind))
    # what is still in the queues at the end, and what stayed at home
    for src, blob, _ in items:
        check(src, look(load(blob)), "read at the end")
    for src, x in kept.items():
        if not src[2]:
            check(src, look(x), "never sent away")
    run.mix(sorted((repr(k), world.short(v)) for k, v in want.items()))


def follow(env, d, path, made):
    x = parse(env.api, d)
    for k in path:
        x = parts(x)[k]
    if made:
        x = act(made, x, 0)
    return x
