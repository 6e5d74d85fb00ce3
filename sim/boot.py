"""Prepares a process ("zygote") in which the library runs under simulation.

Order matters: locks, clock and sleep are replaced before the library (and
``logging``) is imported, so that everything it could capture at import time is
already the simulator's.  The library's own source is compiled from the
repository's working tree and executed unchanged; only the compile step is
cached so that a cold import can be repeated thousands of times.
"""
import os
import sys
import time
import importlib.abc
import importlib.machinery
import io

from . import core

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "atlas_doc_parser"
PKG_DIR = os.path.join(REPO, PKG)

_codes = {}  # path -> code object
ROOT = [REPO]  # where the package is imported from (a scratch copy for some runs)
UNCACHED = set()  # paths below another root that are compiled from there


class _CachedLoader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        if ROOT[0] != REPO and path.startswith(ROOT[0] + os.sep):
            data = self.get_data(path)
            home = os.path.join(REPO, path[len(ROOT[0]) + 1:])
            if path in UNCACHED or home not in _codes:
                return compile(data, path, "exec", dont_inherit=True)
            return _codes[home]
        code = _codes.get(path)
        if code is None:
            code = compile(self.get_data(path), path, "exec", dont_inherit=True)
            _codes[path] = code
        return code

    def get_data(self, path):
        with io.open(path, "rb") as f:
            return f.read()


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname != PKG and not fullname.startswith(PKG + "."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(
            fullname, [ROOT[0]] if path is None else path, target
        )
        if spec is not None and isinstance(
            spec.loader, importlib.machinery.SourceFileLoader
        ):
            spec.loader = _CachedLoader(spec.loader.name, spec.loader.path)
        return spec


class SimClock:
    """The only clock the library can read while simulated."""

    def __init__(self):
        self.now = 1_700_000_000.0  # seconds, moved by the plan only

    def time(self):
        return self.now


CLOCK = SimClock()


def _patch_clock():
    import datetime as dt

    real_dt, real_date = dt.datetime, dt.date
    time.time = CLOCK.time
    time.time_ns = lambda: int(CLOCK.now * 1e9)
    time.monotonic = CLOCK.time
    time.perf_counter = CLOCK.time
    time.sleep = core.sim_sleep
    real_localtime, real_gmtime = time.localtime, time.gmtime
    time.localtime = lambda s=None: real_localtime(CLOCK.now if s is None else s)
    time.gmtime = lambda s=None: real_gmtime(CLOCK.now if s is None else s)

    class datetime(real_dt):
        @classmethod
        def now(cls, tz=None):
            return real_dt.fromtimestamp(CLOCK.now, tz)

        @classmethod
        def utcnow(cls):
            return real_dt.fromtimestamp(CLOCK.now, dt.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return real_dt.fromtimestamp(CLOCK.now)

    class date(real_date):
        @classmethod
        def today(cls):
            return real_date.fromtimestamp(CLOCK.now)

    dt.datetime = datetime
    dt.date = date


real_clock = time.perf_counter  # for the harness itself (evidence only)


def prepare(clock=True):
    """Patch the process.  Must run before anything imports the library."""
    assert PKG not in sys.modules
    core.patch_threading()
    if clock:
        _patch_clock()
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, _Finder())
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    # compile the whole library from the working tree
    for root, dirs, files in os.walk(PKG_DIR):
        dirs[:] = sorted(d for d in dirs if d not in ("__pycache__", "tests", "docs"))
        for f in sorted(files):
            if f.endswith(".py"):
                path = os.path.join(root, f)
                with open(path, "rb") as fh:
                    _codes[path] = compile(fh.read(), path, "exec", dont_inherit=True)
    # third-party and stdlib modules the library builds on
    import logging, copy, dataclasses, textwrap, datetime, enum, typing, json  # noqa
    import func_args.api  # noqa


def library_codes():
    out = []
    for path in sorted(_codes):
        out.extend(core.walk_code(_codes[path]))
    return out


def support_codes():
    """Python code below the library that handles its data."""
    import copy, textwrap, dataclasses
    import func_args.api
    out = []
    seen = set()
    mods = [copy, textwrap, dataclasses]
    mods += [m for n, m in sorted(sys.modules.items()) if n.startswith("func_args")]
    for m in mods:
        for name in sorted(vars(m)):
            o = vars(m)[name]
            fns = [o]
            if isinstance(o, type) and o.__module__ == m.__name__:
                fns = list(vars(o).values())
            for f in fns:
                f = getattr(f, "__func__", f)
                c = getattr(f, "__code__", None)
                if c is not None and c not in seen and f.__module__ == m.__name__:
                    for cc in core.walk_code(c):
                        seen.add(cc)
                        out.append(cc)
    return out


def load():
    """Import the public API (a warm zygote)."""
    import atlas_doc_parser.api as api
    import atlas_doc_parser.settings as settings
    import atlas_doc_parser.exc as exc
    return api, settings, exc
