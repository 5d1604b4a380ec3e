"""multiprocessing seam: processes are simulated processes; queues have the
real ones' shape (bounded semaphore, sender-side buffer, a feeder that pickles
later, a pipe of finite capacity), and helpers can die at any instant."""
import multiprocessing
import multiprocessing.context
import pickle
import queue as _queue
import sys
import collections

from . import kernel as K
from . import loader
from .kernel import cur

REAL = {}
ERR = multiprocessing.ProcessError


def _need():
    k, t = cur()
    if t is None:
        k2 = K.KERNEL
        if k2 is not None and k2.aborting:
            raise K.SimKilled()
        raise K.HarnessError("multiprocessing used outside the simulation")
    return k, t


# ------------------------------------------------------------------ Queue ---
class SimQueue:
    def __init__(self, maxsize=0, **kw):
        k, t = _need()
        self._k = k
        self._maxsize = maxsize if maxsize and maxsize > 0 else 2 ** 31 - 1
        self._sem = self._maxsize            # bounded semaphore
        self._bufs = {}                      # proc -> deque of live objects
        self._pipe = collections.deque()     # pickled messages
        self._bytes = 0
        self._broken = False                 # a sender died mid-message
        self._unfinished = 0
        self._closed = set()
        k.nq = getattr(k, "nq", 0) + 1
        self._name = "q%d" % k.nq
        self._noexit = set()

    def __deepcopy__(self, memo):
        return self

    def _feeder(self, p):
        b = self._bufs.get(p)
        if b is None:
            b = self._bufs[p] = collections.deque()
            p.queues.append(self)
            k = self._k
            k.pumps.append(K.Pump("feed:%s:%s" % (p.name, self._name), p,
                                  lambda: self._can_feed(p), lambda: self._feed(p)))
        return b

    def _can_feed(self, p):
        b = self._bufs[p]
        return bool(b) and not p.ended and (self._bytes == 0 or self._bytes < self._k.config["pipe_cap"])

    def _feed(self, p):
        k = self._k
        obj = self._bufs[p].popleft()
        k.quiet += 1
        try:
            try:
                with _mods(p):
                    data = pickle.dumps(obj, -1)
            except Exception as e:
                p.err.write("Traceback: feeder could not pickle: %r\n" % (e,))
                self._sem += 1
                k.probe("unpicklable")
                return
        finally:
            k.quiet -= 1
        n = _weight(k, obj, data)
        self._pipe.append((data, p if n > k.config["pipe_cap"] else None, n))
        self._bytes += n
        k.hash.update(b"feed%d" % len(data))
        k.probe("fed")

    def put(self, obj, block=True, timeout=None):
        k, t = _need()
        if t.proc in self._closed:
            raise ValueError("Queue %r is closed" % (self,))
        k.op("qput", self._name)
        if self._sem <= 0:
            if not block:
                raise _queue.Full
            dl = None if timeout is None else k.now + max(0, timeout)
            while self._sem <= 0:
                k.probe("qput_blocked")
                if not k.block(lambda: self._sem > 0, dl, "put " + self._name):
                    raise _queue.Full
        self._sem -= 1
        self._unfinished += 1
        self._feeder(t.proc).append(obj)

    def get(self, block=True, timeout=None):
        k, t = _need()
        if t.proc in self._closed:
            raise ValueError("Queue %r is closed" % (self,))
        k.op("qget", self._name)
        if not self._pipe:
            if not block:
                raise _queue.Empty
            dl = None if timeout is None else k.now + max(0, timeout)
            while not self._pipe:
                if not k.block(lambda: bool(self._pipe), dl, "get " + self._name):
                    raise _queue.Empty
        data, sender, n = self._pipe[0]
        if sender is not None and sender.ended:
            k.probe("partial_message")
            k.block(lambda: False, None, "get of a partial message " + self._name)
        self._pipe.popleft()
        self._bytes -= n
        self._sem += 1
        k.quiet += 1
        try:
            with _mods(t.proc):
                return pickle.loads(data)
        finally:
            k.quiet -= 1

    def get_nowait(self):
        return self.get(False)

    def put_nowait(self, obj):
        return self.put(obj, False)

    def qsize(self):
        return self._maxsize - self._sem

    def empty(self):
        k, t = _need()
        k.op("qempty", self._name)
        return not self._pipe

    def full(self):
        return self._sem <= 0

    def close(self):
        k, t = _need()
        self._closed.add(t.proc)

    def join_thread(self):
        k, t = _need()
        _flush_queue(k, t, self)

    def cancel_join_thread(self):
        k, t = _need()
        self._noexit.add(t.proc)

    def task_done(self):
        if self._unfinished <= 0:
            raise ValueError("task_done() called too many times")
        self._unfinished -= 1

    def join(self):
        k, t = _need()
        k.block(lambda: self._unfinished == 0, None, "qjoin " + self._name)


class SimSimpleQueue(SimQueue):
    def put(self, obj):
        """synchronous: pickled in the caller, blocks on a full pipe"""
        k, t = _need()
        k.op("qput", self._name)
        data = pickle.dumps(obj, -1)
        cap = k.config["pipe_cap"]
        n = _weight(k, obj, data)
        if n and self._bytes and self._bytes + n > cap:
            k.block(lambda: self._bytes == 0 or self._bytes + n <= cap, None, "put " + self._name)
        entry = (data, t.proc if n > cap else None, n)
        self._pipe.append(entry)
        self._bytes += n
        self._sem -= 1
        if n > cap:  # a message larger than the pipe keeps its sender until it is read
            k.block(lambda: not any(e is entry for e in self._pipe), None, "put " + self._name)


def _weight(k, obj, data):
    """A small pipe_cap stands for large arrays: messages without arrays do not fill a pipe."""
    if k.config["pipe_cap"] >= 4096:
        return len(data)
    import numpy as np
    items = obj if isinstance(obj, (tuple, list)) else [obj]
    return len(data) if any(isinstance(x, np.ndarray) for x in items) else 0


def _flush_queue(k, t, q):
    b = q._bufs.get(t.proc)
    p = t.proc
    if b or any(x[1] is p for x in q._pipe):
        k.block(lambda: not b and not any(x[1] is p for x in q._pipe), None, "flush " + q._name)


def drain_feeders(k, t):
    """what multiprocessing does when a process exits: join the feeder threads"""
    for q in list(t.proc.queues):
        if t.proc not in q._noexit:
            _flush_queue(k, t, q)


class _mods:
    """pickle functions/classes against the module copies of process p"""
    def __init__(self, p):
        self.p = p

    def __enter__(self):
        k = K.KERNEL
        self.k = k
        last = k._last_proc
        self.swap = last is not self.p and k.enter_proc is not None
        if self.swap:
            self.saved = {n: sys.modules.get(n) for n in self.p.modules}
            sys.modules.update(self.p.modules)

    def __exit__(self, *a):
        if self.swap:
            for n, m in self.saved.items():
                if m is None:
                    sys.modules.pop(n, None)
                else:
                    sys.modules[n] = m


class _Shared:
    """objects that are shared, not copied, when passed to a child"""

    def __deepcopy__(self, memo):
        return self


class SimLock(_Shared):
    def __init__(self, n=1, reentrant=False, bounded=True):
        k, t = _need()
        self._k, self._n, self._max = k, n, n
        self._re, self._owner, self._depth = reentrant, None, 0

    def acquire(self, block=True, timeout=None):
        k, t = _need()
        k.op("mplock", "")
        if self._re and self._owner is t:
            self._depth += 1
            return True
        if self._n <= 0:
            if not block:
                return False
            dl = None if timeout is None else k.now + max(0, timeout)
            while self._n <= 0:
                if not k.block(lambda: self._n > 0, dl, "mplock"):
                    return False
        self._n -= 1
        self._owner, self._depth = t, 1
        return True

    def release(self):
        k, t = _need()
        if self._re:
            self._depth -= 1
            if self._depth:
                return
            self._owner = None
        self._n += 1

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def get_value(self):
        return self._n


class SimEvent(_Shared):
    def __init__(self):
        _need()
        self._f = False

    def is_set(self):
        k, t = _need()
        k.op("evisset", "")
        return self._f

    def set(self):
        k, t = _need()
        k.op("evset", "")
        self._f = True

    def clear(self):
        self._f = False

    def wait(self, timeout=None):
        k, t = _need()
        k.op("evwait", "")
        if not self._f:
            k.block(lambda: self._f, None if timeout is None else k.now + max(0, timeout), "event")
        return self._f


class SimCondition(_Shared):
    def __init__(self, lock=None):
        self._l = lock or SimLock(reentrant=True)
        self._tickets = 0
        self._served = 0
        self.acquire, self.release = self._l.acquire, self._l.release

    def __enter__(self):
        return self._l.acquire()

    def __exit__(self, *a):
        self._l.release()

    def wait(self, timeout=None):
        k, t = _need()
        self._tickets += 1
        me = self._tickets
        self._l.release()
        r = k.block(lambda: self._served >= me, None if timeout is None else k.now + max(0, timeout), "cond")
        self._l.acquire()
        return r

    def wait_for(self, pred, timeout=None):
        while not pred():
            if not self.wait(timeout):
                return pred()
        return True

    def notify(self, n=1):
        self._served = min(self._tickets, self._served + n)

    def notify_all(self):
        self._served = self._tickets


class SimConn(_Shared):
    def __init__(self):
        k, t = _need()
        self._k = k
        self._in = collections.deque()
        self._peer = None
        self._nbytes = 0
        self._holders = {t.proc}
        self._closed_by = set()
        if not hasattr(k, "conns"):
            k.conns = []
        k.conns.append(self)

    def send(self, obj):
        k, t = _need()
        k.op("csend", "")
        data = pickle.dumps(obj, -1)
        p = self._peer
        if t.proc in self._closed_by:
            raise OSError("handle is closed")
        if p._gone():
            raise BrokenPipeError(32, "Broken pipe")
        cap = k.config["pipe_cap"]
        n = _weight(k, obj, data)
        while n and p._nbytes and p._nbytes + n > cap:
            k.block(lambda: p._nbytes == 0 or p._nbytes + n <= cap or p._gone(), None, "csend")
            if p._gone():
                raise BrokenPipeError(32, "Broken pipe")
        # a message larger than the pipe keeps its sender until it is read
        big = t.proc if n > cap else None
        entry = [data, big, n]
        p._in.append(entry)
        p._nbytes += n
        if big is not None:
            k.probe("send_blocked")
            k.block(lambda: entry[1] is None or p._gone(), None, "csend")
            if entry[1] is not None:
                raise BrokenPipeError(32, "Broken pipe")

    def _gone(self):
        return all(h.ended or h in self._closed_by for h in self._holders)

    def recv(self):
        k, t = _need()
        k.op("crecv", "")
        if t.proc in self._closed_by:
            raise OSError("handle is closed")
        if not self._in:
            k.block(lambda: bool(self._in) or self._peer._gone(), None, "crecv")
        if not self._in:
            raise EOFError
        d, sender, n = self._in[0]
        if sender is not None and sender.ended:
            k.probe("partial_message")
            self._in.clear()
            self._nbytes = 0
            raise OSError("got end of file during message")
        e = self._in.popleft()
        e[1] = None
        self._nbytes -= n
        with _mods(t.proc):
            return pickle.loads(d)

    send_bytes = send
    recv_bytes = recv

    def poll(self, timeout=0.0):
        k, t = _need()
        k.op("cpoll", "")
        if self._in or self._peer._gone():
            return True
        if timeout is None or timeout > 0:
            k.block(lambda: bool(self._in) or self._peer._gone(),
                    None if timeout is None else k.now + timeout, "cpoll")
        return bool(self._in) or self._peer._gone()

    def close(self):
        k, t = _need()
        self._closed_by.add(t.proc)

    def fileno(self):
        return -1

    @property
    def closed(self):
        k, t = _need()
        return t.proc in self._closed_by

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def SimPipe(duplex=True):
    a, b = SimConn(), SimConn()
    a._peer, b._peer = b, a
    return a, b


class SimValue(_Shared):
    def __init__(self, typ, v=0, lock=True):
        self.value = v
        self._lock = SimLock(reentrant=True)

    def get_lock(self):
        return self._lock


# ---------------------------------------------------------------- Process ---
class SimProcess(_Shared):
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        k, t = _need()
        self._k = k
        self._target, self._args, self._kwargs = target, tuple(args), dict(kwargs or {})
        self._parent = t.proc
        self._proc = None
        self._daemon = bool(daemon) if daemon is not None else False
        k.nmp = getattr(k, "nmp", 0) + 1
        self.name = name or "Process-%d" % k.nmp
        self.authkey = b""
        self._sproc = None

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    @property
    def daemon(self):
        return self._daemon

    @daemon.setter
    def daemon(self, v):
        self._daemon = v

    def start(self):
        k, t = _need()
        assert self._sproc is None, "cannot start a process twice"
        for f in k.op("spawn", ""):
            if f["kind"] in ("eagain", "enomem", "emfile", "eio"):
                raise OSError(11, "Resource temporarily unavailable")
        par = t.proc
        par.nchild += 1
        cname = "%s/c%d" % (par.name, par.nchild)
        holder = {}

        def main():
            kk, tt = _need()
            p = holder["p"]
            try:
                kk.op("start", "")
                fn, args, kw = holder["fn"], holder["args"], holder["kw"]
                fn(*args, **kw)
                p.exitcode = 0
            except SystemExit as e:
                p.exitcode = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
            except K.SimKilled:
                raise
            except BaseException as e:
                p.exitcode = 1
                p.error = repr(e)
                p.err.write("Process %s: %r\n" % (self.name, e))
            from . import threads
            threads.exit_threads(kk, tt)
            drain_feeders(kk, tt)

        k.quiet += 1
        try:
            p = k.new_proc(cname, main, parent=par, daemon=self._daemon, is_child=True)
            holder["p"] = p
            tgt = self._target if type(self).run is SimProcess.run else None
            if tgt is None:
                holder["fn"], holder["args"], holder["kw"] = self.run, (), {}
            else:
                holder["fn"] = _map_target(p, tgt)
                holder["args"] = self._args
                holder["kw"] = self._kwargs
                for a in list(self._args) + list(self._kwargs.values()):
                    if isinstance(a, SimConn):
                        a._holders.add(p)
                # a forked child inherits every pipe end its parent has open
                for c in getattr(k, "conns", ()):
                    if par in c._holders and par not in c._closed_by:
                        c._holders.add(p)
                # fork gives the child its own copy of plain data
                try:
                    holder["args"] = tuple(_fork_copy(a) for a in self._args)
                    holder["kw"] = {n: _fork_copy(a) for n, a in self._kwargs.items()}
                except Exception:
                    pass
        finally:
            k.quiet -= 1
        self._sproc = p
        k.probe("spawned")
        k.op("spawned", "")

    def _ended(self):
        return self._sproc.ended

    def join(self, timeout=None):
        k, t = _need()
        assert self._sproc is not None, "can only join a started process"
        k.op("join", "")
        if not self._ended():
            k.block(self._ended, None if timeout is None else k.now + max(0, timeout), "join")

    def is_alive(self):
        k, t = _need()
        k.op("is_alive", "")
        return self._sproc is not None and not self._sproc.ended

    @property
    def exitcode(self):
        if self._sproc is None or not self._sproc.ended:
            return None
        return self._sproc.exitcode

    @property
    def pid(self):
        return self._sproc.pid if self._sproc else None

    ident = pid

    def terminate(self):
        k, t = _need()
        if self._sproc is not None:
            _signal(k, self._sproc, -15)

    def kill(self):
        k, t = _need()
        if self._sproc is not None:
            _signal(k, self._sproc, -9)

    def close(self):
        if self._sproc is not None and not self._sproc.ended:
            raise ValueError("Cannot close a process while it is still running.")

    @property
    def sentinel(self):
        return self


def _signal(k, p, exitcode):
    """a signal is delivered some time after it was sent"""
    k.op("terminate", "")
    if not p.ended:
        k.pumps.append(K.Pump("%s!%d" % (p.name, len(k.pumps)), p, lambda: not p.ended,
                              lambda: k.kill_proc(p, exitcode)))


def _fork_copy(a):
    import numpy as np
    if isinstance(a, np.ndarray):
        return a.copy()
    if isinstance(a, (list, dict, set)):
        import copy
        return copy.deepcopy(a)
    return a


def _map_target(p, fn):
    mod, qn = getattr(fn, "__module__", None), getattr(fn, "__qualname__", "")
    m = p.modules.get(mod)
    if m is None:
        return fn
    o = m
    try:
        for part in qn.split("."):
            o = getattr(o, part)
        return o
    except AttributeError:
        return fn


class SimContext:
    def __getattr__(self, n):
        try:
            return _API[n]
        except KeyError:
            return getattr(multiprocessing.context._default_context, n)


def _get_context(method=None):
    return SimContext()


def _wait(objs, timeout=None):
    k, t = _need()

    def ready():
        out = []
        for o in objs:
            if isinstance(o, SimProcess) and o._ended():
                out.append(o)
            elif isinstance(o, SimConn) and (o._in or o._peer._gone()):
                out.append(o)
        return out
    if not ready():
        k.block(lambda: bool(ready()), None if timeout is None else k.now + max(0, timeout), "wait")
    return ready()


_API = {
    "Queue": SimQueue, "JoinableQueue": SimQueue, "SimpleQueue": SimSimpleQueue,
    "Process": SimProcess, "Pipe": SimPipe, "Event": SimEvent,
    "Lock": SimLock, "RLock": lambda: SimLock(reentrant=True),
    "Semaphore": SimLock, "BoundedSemaphore": SimLock, "Condition": SimCondition,
    "Value": SimValue, "get_context": _get_context,
    "active_children": lambda: [],
}
_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    for n, v in _API.items():
        REAL[n] = getattr(multiprocessing, n)
        setattr(multiprocessing, n, v)
    import multiprocessing.connection as mc
    mc.wait = _wait
