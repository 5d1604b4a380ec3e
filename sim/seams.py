"""Seams: everything the package under test uses to reach the outside world is
replaced here, once per OS process, *before* fasteners / the package are imported.
Code outside a simulated task passes straight through to the real thing."""
import builtins
import errno
import fcntl
import io
import os
import random
import sys
import time
import threading

from . import kernel as K
from .kernel import cur

REAL = {}


class FaultOSError(OSError):
    pass


def oserror(f):
    no = {"eio": errno.EIO, "enospc": errno.ENOSPC, "eacces": errno.EACCES,
          "emfile": errno.EMFILE, "enolck": errno.ENOLCK, "eintr": errno.EINTR,
          "short": errno.EIO}[f["kind"]]
    return OSError(no, os.strerror(no))


def label(k, path):
    if isinstance(path, int):
        return None
    p = os.fspath(path)
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if not p.startswith("/") or "/." in p or "//" in p:
        p = os.path.abspath(p)
    s = k.scratch
    if s and p.startswith(s + os.sep):
        return p[len(s) + 1:]
    return None


# ---------------------------------------------------------------- files -----
class SimRaw(io.FileIO):
    """A real file in the scratch directory whose reads, writes and close are
    simulator operations (yield points, short writes, ENOSPC, EIO, kills)."""

    def __init__(self, k, t, path, mode, lab):
        self._k, self._proc, self._lab = k, t.proc, lab
        super().__init__(path, mode)
        self._ino = os.fstat(self.fileno()).st_ino
        t.proc.files.append(self)

    def _op(self, kind):
        k = self._k
        if K.KERNEL is not k or k.aborting or self._proc.ended:
            raise K.SimKilled()
        kk, t = cur()
        if t is None:
            return ()
        return k.op(kind, self._lab)

    def write(self, b):
        fs = self._op("fwrite")
        b = bytes(b)
        for f in fs:
            kind = f["kind"]
            if kind == "short":            # short write, no error: caller must continue
                n = max(1, int(len(b) * f.get("frac", 0.5)))
                return super().write(b[:n])
            if kind in ("enospc", "eio"):
                n = int(len(b) * f.get("frac", 0.0))
                if n:
                    super().write(b[:n])
                raise oserror(f)
            if kind == "killmid":
                n = int(len(b) * f.get("frac", 0.5))
                if n:
                    super().write(b[:n])
                k, t = cur()
                k.die(t)
        return super().write(b)

    def _readfaults(self):
        for f in self._op("fread"):
            if f["kind"] in ("eio",):
                raise oserror(f)

    def readinto(self, b):
        self._readfaults()
        return super().readinto(b)

    def readall(self):
        self._readfaults()
        return super().readall()

    def read(self, size=-1):
        self._readfaults()
        return super().read(size)

    def close(self):
        if self.closed:
            return
        k = self._k
        try:
            if K.KERNEL is k and not k.aborting and not self._proc.ended:
                kk, t = cur()
                if t is not None:
                    for f in k.op("fclose", self._lab):
                        if f["kind"] in ("eio", "enospc"):
                            raise oserror(f)
        finally:
            if not self.closed:
                super().close()
            # POSIX: closing any descriptor drops the process's record locks
            owners = k.fcntl_locks.get(self._ino)
            if owners is not None:
                owners.pop(self._proc, None)
            try:
                self._proc.files.remove(self)
            except ValueError:
                pass


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    k, t = cur()
    if t is None or isinstance(file, int) or opener is not None:
        return REAL["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    try:
        lab = label(k, file)
    except TypeError:
        lab = None
    if lab is None:
        return REAL["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    if "U" in mode:
        return REAL["open"](file, mode)           # raises exactly as the real one
    for f in k.op("fopen", lab):
        if f["kind"] in ("eio", "enospc", "eacces", "emfile"):
            raise oserror(f)
    binary = "b" in mode
    raw = SimRaw(k, t, os.path.abspath(os.fspath(file)), mode.replace("b", "").replace("t", ""), lab)
    try:
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = io.DEFAULT_BUFFER_SIZE if buffering < 2 else buffering
        if k.config.get("bufsize"):
            size = k.config["bufsize"]
        if raw.readable() and raw.writable():
            buf = io.BufferedRandom(raw, size)
        elif raw.writable():
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, buffering == 1)
        text.mode = mode
        return text
    except BaseException:
        raw.close()
        raise


# ---------------------------------------------------------------- locks -----
def _lock_ino(fd):
    if hasattr(fd, "fileno"):
        fd = fd.fileno()
    return os.fstat(fd).st_ino


def sim_lockf(fd, cmd, length=0, start=0, whence=0):
    k, t = cur()
    if t is None:
        return REAL["lockf"](fd, cmd, length, start, whence)
    ino = _lock_ino(fd)
    name = getattr(fd, "name", None)
    if not isinstance(name, (str, bytes)):
        try:
            name = os.readlink("/proc/self/fd/%d" % (fd if isinstance(fd, int) else fd.fileno()))
        except OSError:
            name = "?"
    lab = label(k, name)
    owners = k.fcntl_locks.setdefault(ino, {})
    if cmd & fcntl.LOCK_UN:
        k.op("unlock", lab or "?")
        owners.pop(t.proc, None)
        return None
    for f in k.op("lock", lab or "?"):
        if f["kind"] in ("eio", "enolck", "eintr"):
            raise oserror(f)
    shared = bool(cmd & fcntl.LOCK_SH)

    def free():
        for p, sh in owners.items():
            if p is not t.proc and not (shared and sh):
                return False
        return True
    while not free():
        if cmd & fcntl.LOCK_NB:
            k.probe("lock_contended")
            t.polls = getattr(t, "polls", 0) + 1
            raise BlockingIOError(errno.EAGAIN, os.strerror(errno.EAGAIN))
        k.block(free, None, "lockf")
    owners[t.proc] = shared
    t.polls = 0
    k.op("locked", lab or "?")
    return None


def sim_flock(fd, op):
    k, t = cur()
    if t is None:
        return REAL["flock"](fd, op)
    return sim_lockf(fd, op)


# ---------------------------------------------------------------- clock -----
def _clock(k, t):
    """wall clock as seen by the code under test"""
    c = k.config.get("clock") or {}
    k.now += c.get("tick", 1e-6)
    n = k.probes["clock_reads"] = k.probes.get("clock_reads", 0) + 1
    off = 0.0
    for at, d in c.get("jumps", ()):
        if n >= at:
            off += d
        if n == at:
            kind = "clock-forward" if d > 0 else "clock-back"
            k.fired[kind] = k.fired.get(kind, 0) + 1
    if c.get("frozen"):
        k.fired["clock-frozen"] = 1
        return k.t0 + off
    return k.now + off


def sim_time():
    k, t = cur()
    if t is None:
        return REAL["time"]()
    v = _clock(k, t)
    fn = k.config.get("_clock_reader")
    if fn:
        fn(v)
    return v


def sim_monotonic():
    k, t = cur()
    if t is None:
        return REAL["monotonic"]()
    k.now += 1e-6
    return k.now - k.t0 + 1000.0


def sim_perf():
    k, t = cur()
    if t is None:
        return REAL["perf_counter"]()
    k.now += 1e-6
    return k.now - k.t0 + 1.0


def sim_process_time():
    k, t = cur()
    if t is None:
        return REAL["process_time"]()
    return k.now - k.t0


def sim_sleep(dt):
    k, t = cur()
    if t is None:
        return REAL["sleep"](dt)
    if dt < 0:
        raise ValueError("sleep length must be non-negative")
    k.op("sleep", "")
    n = getattr(t, "polls", 0) - 30
    if n > 0:                  # a sleep may take longer than asked for: long waits for a lock need fewer steps
        dt = max(dt, min(30.0, dt * 1.2 ** n))
    k.block(lambda: False, k.now + dt, "sleep")


# ---------------------------------------------------------------- os --------
def _wrap_path_op(name, nargs):
    real = getattr(os, name)
    REAL["os." + name] = real

    def f(*a, **kw):
        k, t = cur()
        if t is None:
            return real(*a, **kw)
        labs = []
        for p in a[:nargs]:
            try:
                l = label(k, p)
            except TypeError:
                l = None
            if l is not None:
                labs.append(l)
        if not labs:
            return real(*a, **kw)
        for fl in k.op(name, labs[-1]):
            if fl["kind"] in ("eio", "enospc", "eacces"):
                raise oserror(fl)
        r = real(*a, **kw)
        k.op(name + ".done", labs[-1])
        return r
    f.__name__ = name
    return f


def sim_fsync(fd):
    k, t = cur()
    if t is None:
        return REAL["fsync"](fd)
    for f in k.op("fsync", ""):
        if f["kind"] in ("eio", "enospc"):
            raise oserror(f)
    return None


def sim_getpid():
    k, t = cur()
    if t is None:
        return REAL["getpid"]()
    return t.proc.pid


def sim_stat(path, *a, **kw):
    k, t = cur()
    if t is not None and isinstance(path, (str, bytes, os.PathLike)):
        l = label(k, path)
        if l is not None:
            k.op("stat", l)
    return REAL["os.stat"](path, *a, **kw)


# ---------------------------------------------------------------- random ----
def sim_urandom(n):
    """entropy of the system: a stream of its own for each simulated process"""
    k, t = cur()
    if t is None:
        return REAL["urandom"](n)
    if t.proc.entropy is None:
        t.proc.entropy = random.Random(k.seed * 1299709 + t.proc.pid)
    return t.proc.entropy.randbytes(n)


def _permute(k, x):
    """adversarial outcomes of the random source, chosen by the scenario"""
    modes = k.config["perm"]
    i = k.probes["shuffles"] = k.probes.get("shuffles", 0) + 1
    m = modes[(i - 1) % len(modes)]
    n = len(x)
    idx = list(range(n))
    if m == "rev":
        idx.reverse()
    elif m == "rot":
        idx = idx[n // 2:] + idx[:n // 2]
    elif m == "last":
        idx = idx[-1:] + idx[:-1]
    elif m == "even":
        idx = idx[::2] + idx[1::2]
    elif m != "id":
        return None
    return idx


def _note(k, a):
    """remember the orders drawn, for the oracles"""
    if getattr(k, "perms", None) is None:
        k.perms = []
    k.perms.append([int(i) for i in a])


def sim_shuffle(x):
    k, t = cur()
    if t is None:
        return REAL["shuffle"](x)
    idx = _permute(k, x) if k.config.get("perm") else None
    if idx is not None:
        x[:] = [x[i] for i in idx]
    else:
        REAL["shuffle"](x)
    _note_perm(k, x)


def _note_perm(k, x):
    try:
        if sorted(x) == list(range(len(x))):
            _note(k, x)
    except (TypeError, ValueError):
        pass


def sim_permutation(x):
    k, t = cur()
    if t is None:
        return REAL["permutation"](x)
    a = None
    if k.config.get("perm"):
        import numpy as np
        b = np.arange(x) if isinstance(x, (int, np.integer)) else np.array(x)
        idx = _permute(k, b)
        if idx is not None:
            a = b[idx]
    if a is None:
        a = REAL["permutation"](x)
    _note_perm(k, a)
    return a


class StdDispatch(io.TextIOBase):
    def __init__(self, real, attr):
        self.real, self.attr = real, attr

    def write(self, s):
        k, t = cur()
        if t is None:
            if K.KERNEL is not None and K.KERNEL.aborting:
                return len(s)
            return self.real.write(s)
        getattr(t.proc, self.attr).write(s)
        fn = k.config.get("_stdout")
        if fn and self.attr == "out":
            fn(t, s)
        return len(s)

    def flush(self):
        try:
            self.real.flush()
        except Exception:
            pass

    def fileno(self):
        return self.real.fileno()

    def isatty(self):
        return False


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    REAL["open"] = builtins.open
    REAL["lockf"], REAL["flock"] = fcntl.lockf, fcntl.flock
    for n in ("time", "monotonic", "perf_counter", "sleep", "process_time"):
        REAL[n] = getattr(time, n)
    REAL["fsync"], REAL["getpid"] = os.fsync, os.getpid
    REAL["os.stat"] = os.stat
    builtins.open = sim_open
    io.open = sim_open
    fcntl.lockf, fcntl.flock = sim_lockf, sim_flock
    time.time, time.sleep = sim_time, sim_sleep
    time.monotonic, time.perf_counter = sim_monotonic, sim_perf
    time.process_time = sim_process_time
    os.fsync, os.fdatasync, os.getpid = sim_fsync, sim_fsync, sim_getpid
    os.stat = sim_stat
    for name, n in (("replace", 2), ("rename", 2), ("remove", 1), ("unlink", 1), ("link", 2),
                    ("truncate", 1), ("mkdir", 1), ("rmdir", 1)):
        setattr(os, name, _wrap_path_op(name, n))
    sys.stdout = StdDispatch(sys.stdout, "out")
    sys.stderr = StdDispatch(sys.stderr, "err")
    REAL["urandom"] = os.urandom
    os.urandom = random._urandom = sim_urandom
    import numpy as np
    REAL["shuffle"], REAL["permutation"] = np.random.shuffle, np.random.permutation
    np.random.shuffle, np.random.permutation = sim_shuffle, sim_permutation
    real_unraisable = sys.unraisablehook

    def unraisable(u):
        k = K.KERNEL
        if k is not None:
            if not k.aborting:
                k.probe("unraisable")
            return
        real_unraisable(u)
    sys.unraisablehook = unraisable
