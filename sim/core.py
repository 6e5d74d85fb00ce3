"""Deterministic simulator core.

Real threads run the real library, but only one of them at a time: every
thread is parked on a private gate and the simulator alone decides who runs.
Preemption points are the instructions, lines or function entries of the code
in scope (``sys.monitoring`` local events), plus every lock operation.  All
decisions come from one seeded policy, are recorded as
``(thread, local step) -> next thread`` and can be replayed from that record.

Interrupts and allocation failures are injected at the points at which CPython
itself can deliver them: function entry, loop back edge, and return of a C
function.
"""
import os
import sys
import zlib
import _thread
import itertools

_real_allocate = _thread.allocate_lock
_real_ident = _thread.get_ident
M = sys.monitoring
TOOL = 4
EV = M.events

CURRENT = None  # the running Sim, if any
WAITS = [0]  # how often a simulated thread had to wait for a lock


class SimAbort(BaseException):
    """Unwinds the simulated threads once the run is over."""


class HarnessError(RuntimeError):
    pass


# --------------------------------------------------------------------------
# tasks and scheduler
# --------------------------------------------------------------------------
class Task:
    __slots__ = (
        "tid", "fn", "gate", "state", "steps", "result", "exc", "ident",
        "waiting", "timed", "timed_out", "quiet", "inj", "inj_count", "fired",
        "label",
    )

    def __init__(self, tid, fn, label):
        self.tid = tid
        self.fn = fn
        self.label = label
        self.gate = _real_allocate()
        self.gate.acquire()
        self.state = "ready"  # ready | blocked | done
        self.steps = 0
        self.result = None
        self.exc = None
        self.ident = None
        self.waiting = None
        self.timed = False
        self.timed_out = False
        self.quiet = 0  # >0: no preemption (harness section)
        self.inj = None  # (nth, exception factory)
        self.inj_count = 0
        self.fired = None


class Sim:
    def __init__(self, policy, max_steps=3_000_000):
        self.policy = policy
        self.tasks = []
        self.by_ident = {}
        self.cur = None
        self.main_gate = _real_allocate()
        self.main_gate.acquire()
        self.total = 0
        self.max_steps = max_steps
        self.trace = []  # recorded decisions [tid, step, target]
        self.crc = 0  # event log hash: every decision and its location
        self.switches = 0
        self.locs = 0
        self.failure = None  # ("deadlock"|"livelock", text)
        self.aborting = False
        self.clock_ms = 0

    # -- setup ------------------------------------------------------------
    def spawn(self, fn, label=""):
        t = Task(len(self.tasks), fn, label)
        self.tasks.append(t)
        _thread.start_new_thread(self._body, (t,))
        return t

    def _body(self, t):
        t.ident = _real_ident()
        self.by_ident[t.ident] = t
        t.gate.acquire()
        if not self.aborting:
            try:
                t.result = t.fn()
            except SimAbort:
                pass
            except BaseException as e:  # a harness bug: ops catch their own
                t.exc = e
        t.state = "done"
        t.quiet = 1
        self._handoff_end(t)

    def run(self):
        global CURRENT
        CURRENT = self
        first = self.policy.start([t.tid for t in self.tasks])
        self.trace.append([-1, 0, first])
        self.cur = self.tasks[first]
        self.cur.gate.release()
        self.main_gate.acquire()
        CURRENT = None
        for t in self.tasks:
            if t.exc is not None:
                raise HarnessError(
                    f"task {t.tid} leaked {type(t.exc).__name__}: {t.exc}"
                ) from t.exc

    def current_task(self):
        c = self.cur
        if c is not None and c.ident == _real_ident():
            return c
        return None

    # -- switching ----------------------------------------------------------
    def _ready(self, but=None):
        return [t.tid for t in self.tasks if t.state == "ready" and t is not but]

    def step(self, t, loc):
        """A preemption point of task t (called on t's own thread)."""
        t.steps += 1
        self.total += 1
        if self.aborting:
            raise SimAbort()
        if self.total > self.max_steps:
            self._fail("livelock", f"no completion within {self.max_steps} steps")
        target = self.policy.decide(self, t, loc)
        if target is None or target == t.tid:
            return
        self.trace.append([t.tid, t.steps, target])
        self.crc = zlib.crc32(b"%d %d %d %d" % (t.tid, t.steps, target, loc), self.crc)
        self.switches += 1
        self._switch(t, self.tasks[target])

    def _switch(self, t, other):
        self.cur = other
        other.gate.release()
        t.gate.acquire()
        if self.aborting:
            raise SimAbort()

    def _pick_forced(self, t):
        ready = self._ready(but=t)
        if not ready:
            timed = [x for x in self.tasks if x.state == "blocked" and x.timed]
            if timed:
                x = timed[0]
                x.timed_out = True
                x.state = "ready"
                x.waiting = None
                ready = [x.tid]
        return ready

    def block(self, t, on, timed=False):
        """Park t until somebody wakes it."""
        t.steps += 1
        WAITS[0] += 1
        t.state = "blocked"
        t.waiting = on
        t.timed = timed
        t.timed_out = False
        ready = self._pick_forced(None)
        if not ready:
            held = ", ".join(
                f"thread {x.tid} waits for {x.waiting!r}"
                for x in self.tasks if x.state == "blocked"
            )
            t.state = "ready"
            self._fail("deadlock", held)
        target = self.policy.forced(self, t, ready)
        self.trace.append([t.tid, t.steps, target])
        self.crc = zlib.crc32(b"B%d %d %d" % (t.tid, t.steps, target), self.crc)
        if target == t.tid:
            return
        self._switch(t, self.tasks[target])

    def wake(self, on):
        for x in self.tasks:
            if x.state == "blocked" and x.waiting is on:
                x.state = "ready"
                x.waiting = None

    def _handoff_end(self, t):
        t.steps += 1
        self.crc = zlib.crc32(b"E%d %d" % (t.tid, t.steps), self.crc)
        if self.aborting:
            nxt = [x for x in self.tasks if x.state != "done"]
            if nxt:
                self.cur = nxt[0]
                nxt[0].gate.release()
            else:
                self.main_gate.release()
            return
        ready = self._pick_forced(t)
        if not ready:
            if any(x.state != "done" for x in self.tasks):
                held = ", ".join(
                    f"thread {x.tid} waits for {x.waiting!r}"
                    for x in self.tasks if x.state == "blocked"
                )
                self.failure = ("deadlock", held)
                self.aborting = True
                self._handoff_end(t)
                return
            self.main_gate.release()
            return
        target = self.policy.forced(self, t, ready)
        self.trace.append([t.tid, t.steps, target])
        self.cur = self.tasks[target]
        self.cur.gate.release()

    def _fail(self, kind, text):
        self.failure = (kind, text)
        self.aborting = True
        raise SimAbort()


def note(text):
    """Mix an application-level event into the event log hash."""
    s = CURRENT
    if s is not None:
        s.crc = zlib.crc32(text.encode("utf-8", "backslashreplace"), s.crc)


# --------------------------------------------------------------------------
# policies
# --------------------------------------------------------------------------
class Replay:
    """Follow a recorded list of decisions; stay on the thread otherwise."""

    def __init__(self, trace):
        self.map = {(a, b): c for a, b, c in trace}

    def start(self, tids):
        t = self.map.get((-1, 0), tids[0])
        return t if t in tids else tids[0]

    def decide(self, sim, t, loc):
        tgt = self.map.get((t.tid, t.steps))
        if tgt is None or tgt >= len(sim.tasks):
            return None
        return tgt if sim.tasks[tgt].state == "ready" else None

    def forced(self, sim, t, ready):
        tgt = self.map.get((t.tid, t.steps))
        return tgt if tgt in ready else ready[0]


class Serial(Replay):
    def __init__(self):
        super().__init__([])


class RandomWalk:
    """Switch with probability p at every preemption point."""

    def __init__(self, rng, p):
        self.rng = rng
        self.p = p
        self.gap = self._gap()

    def _gap(self):
        # geometric distribution, one draw per switch instead of per step
        u = self.rng.random()
        import math
        return 1 + int(math.log(1 - u) / math.log(1 - self.p)) if self.p < 1 else 1

    def start(self, tids):
        return self.rng.choice(tids)

    def decide(self, sim, t, loc):
        self.gap -= 1
        if self.gap > 0:
            return None
        self.gap = self._gap()
        ready = sim._ready(but=t)
        return self.rng.choice(ready) if ready else None

    def forced(self, sim, t, ready):
        return self.rng.choice(ready)


class Pct:
    """Priority schedule with d random demotions (probabilistic concurrency
    testing): always run the highest priority ready thread."""

    def __init__(self, rng, n, d, length):
        self.rng = rng
        self.prio = list(range(d + 1, d + 1 + n))
        rng.shuffle(self.prio)
        self.points = sorted(rng.randrange(1, max(2, length)) for _ in range(d))
        self.low = d

    def _best(self, tids):
        return max(tids, key=lambda i: self.prio[i])

    def start(self, tids):
        return self._best(tids)

    def decide(self, sim, t, loc):
        if self.points and sim.total >= self.points[0]:
            self.points.pop(0)
            self.prio[t.tid] = self.low
            self.low -= 1
            ready = sim._ready()
            b = self._best(ready)
            return b if b != t.tid else None
        return None

    def forced(self, sim, t, ready):
        return self._best(ready)


class HotSpots:
    """Switch often at a random subset of code locations and rarely
    elsewhere; drives several threads into the same few lines together."""

    def __init__(self, rng, frac, p_hot, p_cold):
        self.rng = rng
        self.salt = rng.getrandbits(32)
        self.cut = int(frac * 0xFFFFFFFF)
        self.p_hot = p_hot
        self.p_cold = p_cold
        self.cache = {}

    def start(self, tids):
        return self.rng.choice(tids)

    def decide(self, sim, t, loc):
        hot = self.cache.get(loc)
        if hot is None:
            hot = zlib.crc32(b"%d" % loc, self.salt) < self.cut
            self.cache[loc] = hot
        if self.rng.random() >= (self.p_hot if hot else self.p_cold):
            return None
        ready = sim._ready(but=t)
        return self.rng.choice(ready) if ready else None

    def forced(self, sim, t, ready):
        return self.rng.choice(ready)


class Rendezvous:
    """Hold a thread at its first visits to each new code location until the
    others have had a chance to reach it too (cold-location bias)."""

    def __init__(self, rng, visits, p):
        self.rng = rng
        self.visits = visits
        self.p = p
        self.seen = {}

    def start(self, tids):
        return self.rng.choice(tids)

    def decide(self, sim, t, loc):
        k = (t.tid, loc)
        n = self.seen.get(k, 0)
        if n >= self.visits:
            return None
        self.seen[k] = n + 1
        if self.rng.random() >= self.p:
            return None
        ready = sim._ready(but=t)
        return self.rng.choice(ready) if ready else None

    def forced(self, sim, t, ready):
        return self.rng.choice(ready)


def make_policy(spec, n):
    """spec: JSON description of the schedule policy, or a recorded trace."""
    import random
    kind = spec["kind"]
    if kind == "replay":
        return Replay(spec["trace"])
    if kind == "serial":
        return Serial()
    rng = random.Random(spec["seed"])
    if kind == "walk":
        return RandomWalk(rng, spec["p"])
    if kind == "pct":
        return Pct(rng, n, spec["d"], spec["len"])
    if kind == "hot":
        return HotSpots(rng, spec["frac"], spec["p_hot"], spec["p_cold"])
    if kind == "meet":
        return Rendezvous(rng, spec["visits"], spec["p"])
    raise HarnessError(f"unknown policy {kind}")


def gen_policy(rng, length=3000):
    seed = rng.getrandbits(48)
    r = rng.random()
    if r < 0.25:
        return {"kind": "walk", "seed": seed, "p": rng.choice([0.3, 0.1, 0.03, 0.01, 0.003])}
    if r < 0.5:
        return {"kind": "pct", "seed": seed, "d": rng.choice([1, 2, 3, 5, 8]), "len": rng.choice([length // 10, length, length * 4])}
    if r < 0.75:
        return {"kind": "hot", "seed": seed, "frac": rng.choice([0.02, 0.05, 0.15]), "p_hot": rng.choice([0.2, 0.6, 0.95]), "p_cold": rng.choice([0.0, 0.002])}
    return {"kind": "meet", "seed": seed, "visits": rng.choice([1, 2, 4]), "p": rng.choice([0.3, 0.7, 1.0])}


# --------------------------------------------------------------------------
# instrumentation of the code in scope
# --------------------------------------------------------------------------
_code_ids = {}  # code object -> small int, from file name and first line


def _cid(code):
    c = _code_ids.get(code)
    if c is None:
        key = f"{os.path.basename(code.co_filename)}:{code.co_qualname}"
        c = zlib.crc32(key.encode()) & 0xFFFFF
        _code_ids[code] = c
    return c


def _on_point(code, where):
    s = CURRENT
    if s is None:
        return
    t = s.cur
    if t is None or t.quiet or t.ident != _real_ident():
        return
    s.step(t, (_cid(code) << 16) | (where & 0xFFFF))


def _on_start(code, off):
    s = CURRENT
    if s is None:
        if _solo is not None:
            _solo_point(code, off)
        return
    t = s.cur
    if t is None or t.quiet or t.ident != _real_ident():
        return
    if t.inj is not None:
        _inject(t, code, off)
    s.step(t, (_cid(code) << 16) | 0xFFFF)


def _on_inj(code, off, *rest):
    s = CURRENT
    if s is None:
        if _solo is not None:
            _solo_point(code, off)
        return
    t = s.cur
    if t is None or t.quiet or t.inj is None or t.ident != _real_ident():
        return
    _inject(t, code, off)


def _on_jump(code, off, dest):
    if dest < off:  # CPython looks at pending signals on the way back only
        _on_inj(code, off)


def _inject(t, code, off):
    t.inj_count += 1
    nth, make = t.inj
    if t.inj_count == nth:
        t.inj = None
        where = f"{os.path.basename(code.co_filename)}:{code.co_qualname}@{off}"
        t.fired = where
        note("INJ " + where)
        x = make()  # an exception, or None if it was work of its own
        if x is not None:
            raise x


class Solo:
    """Injection without a scheduler (single caller on the main thread)."""

    def __init__(self, nth=0, make=None):
        self.nth = nth
        self.make = make
        self.count = 0
        self.fired = None

    def __enter__(self):
        global _solo
        _solo = self
        return self

    def __exit__(self, *a):
        global _solo
        _solo = None


_solo = None


def _solo_point(code, off):
    global _solo
    s = _solo
    s.count += 1
    if s.count == s.nth:
        _solo = None
        s.fired = f"{os.path.basename(code.co_filename)}:{code.co_qualname}@{off}"
        raise s.make()


def walk_code(code):
    yield code
    for c in code.co_consts:
        if hasattr(c, "co_consts"):
            yield from walk_code(c)


_installed = False


def _noop(*a):
    return None


def instrument(codes, grain, inject=False, resume=False):
    """grain: None | 'call' | 'line' | 'op'."""
    global _installed
    if not _installed:
        M.use_tool_id(TOOL, "sim")
        M.register_callback(TOOL, EV.LINE, _on_point)
        M.register_callback(TOOL, EV.INSTRUCTION, _on_point)
        M.register_callback(TOOL, EV.PY_START, _on_start)
        M.register_callback(TOOL, EV.JUMP, _on_jump)
        M.register_callback(TOOL, EV.CALL, _noop)
        M.register_callback(TOOL, EV.C_RETURN, _on_inj)
        M.register_callback(TOOL, EV.PY_RESUME, _on_inj)
        _installed = True
    mask = 0
    if grain is not None:
        mask |= EV.PY_START
    if grain == "line":
        mask |= EV.LINE
    if grain == "op":
        mask |= EV.INSTRUCTION
    if inject:
        mask |= EV.PY_START | EV.JUMP | EV.CALL
    if resume:
        mask |= EV.PY_RESUME
    for c in codes:
        M.set_local_events(TOOL, c, mask)


# --------------------------------------------------------------------------
# cooperative locks
# --------------------------------------------------------------------------
_lock_seq = itertools.count()


class SimLock:
    """threading.Lock under the simulator; a plain flag outside of it."""

    def __init__(self):
        self._held = False
        self._owner = None
        self._name = f"lock#{next(_lock_seq)}"

    def __repr__(self):
        return f"<{self._name}>"

    def _task(self):
        s = CURRENT
        return (s, s.current_task()) if s is not None else (None, None)

    def acquire(self, blocking=True, timeout=-1):
        s, t = self._task()
        if t is None:
            if self._held:
                if not blocking or timeout >= 0:
                    return False
                raise HarnessError("lock held outside the simulation: self-deadlock")
            self._held = True
            return True
        if not t.quiet:
            s.step(t, 0xA)
        while self._held:
            if not blocking or timeout == 0:
                return False
            s.block(t, self, timed=timeout > 0)
            if t.timed_out:
                t.timed_out = False
                return False
        self._held = True
        self._owner = t.tid
        return True

    __enter__ = acquire

    def release(self):
        if not self._held:
            raise RuntimeError("release unlocked lock")
        self._held = False
        s = CURRENT
        if s is not None:
            s.wake(self)

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self._held

    def _at_fork_reinit(self):
        self._held = False


class SimRLock:
    def __init__(self):
        self._block = SimLock()
        self._own = None
        self._count = 0

    def __repr__(self):
        return f"<r{self._block._name}>"

    def acquire(self, blocking=True, timeout=-1):
        me = _real_ident()
        if self._own == me:
            self._count += 1
            return 1
        rc = self._block.acquire(blocking, timeout)
        if rc:
            self._own = me
            self._count = 1
        return rc

    __enter__ = acquire

    def release(self):
        if self._own != _real_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._own = None
            self._block.release()

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._block._at_fork_reinit()
        self._own = None
        self._count = 0

    def _is_owned(self):
        return self._own == _real_ident()

    def _recursion_count(self):
        return self._count if self._own == _real_ident() else 0

    def _release_save(self):
        st = (self._count, self._own)
        self._count = 0
        self._own = None
        self._block.release()
        return st

    def _acquire_restore(self, st):
        self._block.acquire()
        self._count, self._own = st


def sim_sleep(seconds):
    """time.sleep under the simulator: let the others run, advance the clock."""
    s = CURRENT
    t = s.current_task() if s is not None else None
    if t is None:
        return
    s.clock_ms += int(seconds * 1000)
    ready = s._ready(but=t)
    if ready:
        target = s.policy.forced(s, t, ready)
        t.steps += 1
        s.trace.append([t.tid, t.steps, target])
        s._switch(t, s.tasks[target])


def patch_threading():
    import threading
    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading.RLock = SimRLock
    import importlib._bootstrap as b

    class WakeupLock(SimLock):
        # tried without blocking while CPython holds a real internal lock: no
        # preemption there
        def acquire(self, blocking=True, timeout=-1):
            if not blocking:
                if self._held:
                    return False
                self._held = True
                return True
            return SimLock.acquire(self)

    class SimModuleLock(b._ModuleLock):
        # CPython's own algorithm; only the blocking wait is the simulator's
        def __init__(self, name):
            super().__init__(name)
            self.wakeup = WakeupLock()

    SimModuleLock.__name__ = "_ModuleLock"
    b._ModuleLock = SimModuleLock


class quiet:
    """Harness section inside a task: no preemption, no injection."""

    def __enter__(self):
        s = CURRENT
        self.t = s.current_task() if s is not None else None
        if self.t is not None:
            self.t.quiet += 1

    def __exit__(self, *a):
        if self.t is not None:
            self.t.quiet -= 1
