"""File-system seam: every operation on files below a scratch directory is
counted and can be made to fail, be torn, or be the last thing the process
does.  Operations outside the directory pass through untouched."""
import builtins
import errno
import io
import os
import posix

ERR = {"EIO": errno.EIO, "EMFILE": errno.EMFILE, "ESTALE": errno.ESTALE, "ENOMEM": errno.ENOMEM, "EACCES": errno.EACCES, "EINTR": errno.EINTR, "ENOSPC": errno.ENOSPC, "EROFS": errno.EROFS, "EDQUOT": errno.EDQUOT}
CRASH = 77


class Disk:
    def __init__(self, root, rng=None, fault=None):
        self.root = os.path.realpath(root) + os.sep
        self.rng = rng  # shuffles directory listings
        self.fault = fault  # (op number, kind)
        self.n = 0
        self.log = []  # (kind, relative path)
        self.fired = None
        self.on_crash = None
        self.busy = 0
        self.skip = ()  # relative prefixes that are not part of the seam

    def mine(self, path):
        if isinstance(path, int):
            return None
        try:
            p = os.fspath(path)
            if isinstance(p, bytes):
                p = os.fsdecode(p)
            p = os.path.join(posix.getcwd(), p)
        except (TypeError, OSError):
            return None
        p = os.path.normpath(p)
        if not p.startswith(self.root):
            return None
        p = p[len(self.root):]
        return None if self.skip and p.startswith(self.skip) else p

    def op(self, kind, rel):
        """Count one operation; returns the fault to apply to it, if any."""
        self.n += 1
        self.log.append((kind, rel))
        if self.fault and self.n == self.fault[0] and self.fired is None:
            self.fired = (kind, rel, self.fault[1])
            return self.fault[1]
        return None

    def crash(self):
        if self.on_crash:
            self.on_crash()
        os._exit(CRASH)

    def hit(self, f, kind):
        """Apply a fault that happens before the operation."""
        if f is None:
            return
        if f == "crash":
            self.crash()
        if f in ERR:
            raise OSError(ERR[f], os.strerror(ERR[f]))
        if f == "interrupt":
            raise KeyboardInterrupt("injected")
        if f == "crash_after":
            return
        raise AssertionError(f)

    # -- installation -----------------------------------------------------
    def install(self):
        real_open, real_scandir, real_listdir = io.open, posix.scandir, posix.listdir
        real = {k: getattr(posix, k) for k in ("replace", "rename", "unlink", "remove", "mkdir", "fsync", "open", "write", "truncate")}
        fds = {}

        def sim_open(file, mode="r", *a, **kw):
            rel = self.mine(file) if not self.busy else None
            if rel is None:
                return real_open(file, mode, *a, **kw)
            w = any(c in mode for c in "wax+")
            kind = "open-w" if w else "open-r"
            f = self.op(kind, rel)
            self.hit(f, kind)
            self.busy += 1
            try:
                fh = real_open(file, mode, *a, **kw)
            finally:
                self.busy -= 1
            if f == "crash_after":
                self.crash()
            return SimFile(self, fh, rel, w)

        def sim_listdir(path="."):
            rel = self.mine(path)
            if rel is None or self.busy:
                return real_listdir(path)
            f = self.op("list", rel)
            self.hit(f, "list")
            out = sorted(real_listdir(path))
            if self.rng:
                self.rng.shuffle(out)
            if f == "crash_after":
                self.crash()
            return out

        class Scan:
            def __init__(s, items):
                s.it = iter(items)

            def __iter__(s):
                return s

            def __next__(s):
                return next(s.it)

            def __enter__(s):
                return s

            def __exit__(s, *a):
                pass

            def close(s):
                pass

        def sim_scandir(path="."):
            rel = self.mine(path)
            if rel is None or self.busy:
                return real_scandir(path)
            f = self.op("list", rel)
            self.hit(f, "list")
            with real_scandir(path) as it:
                out = sorted(it, key=lambda e: e.name)
            if self.rng:
                self.rng.shuffle(out)
            if f == "crash_after":
                self.crash()
            return Scan(out)

        def wrap(name):
            fn = real[name]

            def call(*a, **kw):
                rel = self.mine(a[0]) if a else None
                if name in ("write", "fsync"):
                    rel = fds.get(a[0])
                if name in ("replace", "rename") and len(a) > 1:
                    rel = self.mine(a[1]) or rel
                if rel is None or self.busy:
                    return fn(*a, **kw)
                f = self.op(name, rel)
                if name == "write" and f in ("torn_crash", "torn_error"):
                    k = len(a[1]) // 2
                    fn(a[0], bytes(a[1])[:k])
                    if f == "torn_crash":
                        self.crash()
                    raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
                if f in ("torn_crash", "torn_error"):
                    f = "crash" if f == "torn_crash" else "ENOSPC"
                self.hit(f, name)
                r = fn(*a, **kw)
                if name == "open":
                    fds[r] = rel
                if f == "crash_after":
                    self.crash()
                return r
            return call

        io.open = builtins.open = sim_open
        os.listdir = posix.listdir = sim_listdir
        os.scandir = posix.scandir = sim_scandir
        for k in real:
            w = wrap(k)
            setattr(posix, k, w)
            setattr(os, k, w)
        return self

    def __enter__(self):
        import pathlib
        self.saved = [(m, k, getattr(m, k)) for m, k in [(io, "open"), (builtins, "open")] + [(m, k) for m in (os, posix) for k in ("listdir", "scandir", "replace", "rename", "unlink", "remove", "mkdir", "fsync", "open", "write", "truncate")]]
        return self.install()

    def __exit__(self, *a):
        for m, k, v in self.saved:
            setattr(m, k, v)


class SimFile:
    """A file object whose reads and writes are operations of the seam."""

    def __init__(self, disk, fh, rel, w):
        self._d = disk
        self._f = fh
        self._rel = rel
        self._w = w

    def __getattr__(self, k):
        return getattr(self._f, k)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        f = self._d.op("read", self._rel)
        self._pre(f, "read")
        return iter(self._f)

    def _pre(self, f, kind):
        if f in ("torn_crash", "torn_error"):
            f = "crash" if f == "torn_crash" else "EIO"
        self._d.hit(f, kind)

    def _do(self, kind, name, *a):
        f = self._d.op(kind, self._rel)
        self._pre(f, kind)
        r = getattr(self._f, name)(*a)
        if f == "crash_after":
            self._d.crash()
        return r

    def read(self, *a):
        return self._do("read", "read", *a)

    def readline(self, *a):
        return self._do("read", "readline", *a)

    def readlines(self, *a):
        return self._do("read", "readlines", *a)

    def write(self, s):
        f = self._d.op("write", self._rel)
        if f in ("torn_crash", "torn_error"):
            self._f.write(s[: int(len(s) * self._d.fault[2])])
            self._f.flush()
            if f == "torn_crash":
                self._d.crash()
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
        self._d.hit(f, "write")
        r = self._f.write(s)
        if f == "crash_after":
            self._d.crash()  # what is still buffered is lost
        return r

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def flush(self):
        if self._w:
            return self._do("flush", "flush")
        return self._f.flush()

    def close(self):
        if self._f.closed:
            return
        if not self._w:
            return self._f.close()
        f = self._d.op("close", self._rel)
        if f in ("torn_crash", "crash"):
            self._d.crash()
        if f is not None and f in ERR or f == "torn_error":
            # the final flush fails: nothing of the buffer reaches the disk
            try:
                fd = self._f.fileno()
                null = posix.open("/dev/null", os.O_WRONLY)
                os.dup2(null, fd)
                os.close(null)
                self._f.close()
            except OSError:
                pass
            raise OSError(ERR.get(f, errno.ENOSPC), "on close")
        self._f.close()
        if f == "interrupt":
            raise KeyboardInterrupt("injected")
        if f == "crash_after":
            self._d.crash()
