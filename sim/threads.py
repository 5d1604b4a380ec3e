"""threading seam: locks created by simulated code (or by the package at import)
block in the simulator, and threads started by simulated code are simulated
tasks of their process.  Everything in the standard library that is written on
top of threading.Lock / RLock (Condition, Event, Semaphore, Barrier, Timer,
queue.Queue, concurrent.futures) then follows.  Elsewhere the real thing."""
import queue
import sys
import threading
import traceback

from . import kernel as K
from .kernel import cur

REAL = {}
PKG = "hpelm"


def _ours():
    """the lock under construction belongs to simulated code"""
    k, t = cur()
    if t is not None:
        return True
    f = sys._getframe(2)
    for _ in range(6):                     # made while the package is imported
        if f is None:
            return False
        n = f.f_globals.get("__name__") or ""
        if f.f_code.co_name == "<module>" and (n == PKG or n.startswith(PKG + ".")):
            return True
        f = f.f_back
    return False


class SimTLock:
    """threading.Lock: released by anyone, not reentrant"""

    def __init__(self):
        self._held = False
        self._k = None

    def _state(self, k):
        if self._k is not k:               # a lock that outlived its run
            self._k, self._held = k, False

    def acquire(self, blocking=True, timeout=-1):
        k, t = cur()
        if t is None:
            # the oracle looks at a model between two steps: takes no part
            if K.KERNEL is not None and K.KERNEL.aborting and self._held:
                raise K.SimKilled()
            return True
        if not blocking and timeout != -1:
            raise ValueError("can't specify a timeout for a non-blocking call")
        self._state(k)
        k.op("tlock", "")
        if self._held:
            if not blocking:
                return False
            dl = None if timeout is None or timeout < 0 else k.now + timeout
            k.probe("thread_lock_waited")
            while self._held:
                if not k.block(lambda: not self._held, dl, "thread lock"):
                    return False
        self._held = True
        return True

    def release(self):
        k, t = cur()
        if t is None:
            return
        self._state(k)
        if not self._held:
            raise RuntimeError("release unlocked lock")
        self._held = False

    def locked(self):
        return self._held

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._held = False

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")


class SimTRLock:
    """threading.RLock"""

    def __init__(self):
        self._l = SimTLock()
        self._owner = None
        self._n = 0

    def acquire(self, blocking=True, timeout=-1):
        k, t = cur()
        if t is None:
            return self._l.acquire()
        if self._owner is t:
            self._n += 1
            return True
        if not self._l.acquire(blocking, timeout):
            return False
        self._owner, self._n = t, 1
        return True

    def release(self):
        k, t = cur()
        if t is None:
            return
        if self._owner is not t:
            raise RuntimeError("cannot release un-acquired lock")
        self._n -= 1
        if not self._n:
            self._owner = None
            self._l.release()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        k, t = cur()
        return t is None or self._owner is t

    def _release_save(self):
        s = (self._n, self._owner)
        self._n, self._owner = 0, None
        self._l.release()
        return s

    def _acquire_restore(self, s):
        self._l.acquire()
        self._n, self._owner = s

    def _recursion_count(self):
        k, t = cur()
        return self._n if t is not None and self._owner is t else 0

    def _at_fork_reinit(self):
        self.__init__()

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.RLock' object")


def Lock():
    return SimTLock() if _ours() else REAL["Lock"]()


def RLock(*a, **kw):
    return SimTRLock() if _ours() else REAL["RLock"](*a, **kw)


def SimpleQueue():
    return queue._PySimpleQueue() if _ours() else REAL["SimpleQueue"]()


# -------------------------------------------------------------- Thread ------
def _start(self):
    k, t = cur()
    if t is None:
        return REAL["start"](self)
    if getattr(self, "_sim", None) is not None:
        raise RuntimeError("threads can only be started once")
    for f in k.op("tstart", ""):
        if f["kind"] in ("eagain", "enomem", "emfile", "eio"):
            raise RuntimeError("can't start new thread")
    p = t.proc
    p.nthread = getattr(p, "nthread", 0) + 1
    name = "%s/t%d" % (p.name, p.nthread)

    def main():
        try:
            self.run()
        except SystemExit:
            pass
        except K.SimKilled:
            raise
        except BaseException as e:
            if K.KERNEL is not k or k.aborting or k.current is None:
                raise
            p.err.write("Exception in thread %s:\n%s" % (name, "".join(traceback.format_exception_only(e))))
            k.probe("thread_exception")

    k.quiet += 1
    try:
        self._sim = k.new_task(p, name, main)
        self._sim.background = self.daemon or getattr(self._target, "__module__", "") == "concurrent.futures.thread"
    finally:
        k.quiet -= 1
    self._started.set()
    k.probe("threads_started")
    k.op("tstarted", "")


def _ended(task):
    return task.state in (K.DONE, K.DEAD)


def _join(self, timeout=None):
    s = getattr(self, "_sim", None)
    if s is None:
        return REAL["join"](self, timeout)
    k, t = cur()
    if t is None:
        return None
    if s is t:
        raise RuntimeError("cannot join current thread")
    k.op("tjoin", "")
    if not _ended(s):
        k.block(lambda: _ended(s), None if timeout is None else k.now + max(0, timeout), "thread join")


def _is_alive(self):
    s = getattr(self, "_sim", None)
    if s is None:
        return REAL["is_alive"](self)
    return not _ended(s)


def _ident(self):
    s = getattr(self, "_sim", None)
    return REAL["ident"].fget(self) if s is None else s.ident


def exit_threads(k, t):
    """a process ends when its non-daemon threads have ended; the others die with it"""
    rest = [x for x in t.proc.tasks if getattr(x, "background", None) is not None and not _ended(x)]
    fg = [x for x in rest if not x.background]
    if fg:
        k.block(lambda: all(_ended(x) for x in fg), None, "threads at exit")
    for x in rest:
        if not _ended(x):
            x.state = K.DEAD
            x.pred = x.deadline = None


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    REAL.update(Lock=threading.Lock, RLock=threading.RLock, start=threading.Thread.start,
                join=threading.Thread.join, is_alive=threading.Thread.is_alive,
                ident=threading.Thread.ident, SimpleQueue=queue.SimpleQueue)
    threading.Lock = Lock
    threading._allocate_lock = Lock
    threading.RLock = RLock
    queue.SimpleQueue = SimpleQueue
    T = threading.Thread
    T.start, T.join, T.is_alive, T.ident = _start, _join, _is_alive, property(_ident)
    import concurrent.futures.thread as cft
    cft._global_shutdown_lock = SimTLock()
