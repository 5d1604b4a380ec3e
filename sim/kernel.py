"""Deterministic simulation kernel.

One simulated run owns every source of nondeterminism of the code under test:
which task runs next, the clock, process death, and injected faults.  Tasks are
real Python threads, parked and released strictly one at a time (a baton), so a
run is a pure function of (scenario, schedule policy) and can be replayed.

A *yield point* is every source line of the package under test (sys.monitoring)
and every operation that crosses a seam (HDF5, files, locks, queues, processes,
sleep).  Each task counts its own yield points; schedule deviations and faults
are addressed by (task name, local count), which keeps a minimised replay file
stable when parts of it are dropped.
"""
import sys
import threading
import random
import hashlib
import io
import os

_Lock, _Thread_start = threading.Lock, threading.Thread.start   # the real ones
_Thread_join, _Thread_alive = threading.Thread.join, threading.Thread.is_alive

READY, BLOCKED, DONE, DEAD = "ready", "blocked", "done", "dead"

KERNEL = None          # the kernel of the run in progress in this OS process


def cur():
    """(kernel, task) when called from simulated code, else (None, None)."""
    k = KERNEL
    if k is None:
        return None, None
    t = k.current
    if t is None or t.ident != threading.get_ident() or k.quiet:
        return None, None
    return k, t


class SimKilled(BaseException):
    """Unwinds the thread of a simulated process after the run is over."""


class HarnessError(Exception):
    pass


class Proc:
    def __init__(self, name, pid, parent=None, daemon=False, is_child=False):
        self.name = name
        self.pid = pid
        self.parent = parent
        self.daemon = daemon
        self.is_child = is_child
        self.state = READY            # READY / DONE / DEAD
        self.exitcode = None
        self.tasks = []
        self.children = []
        self.modules = {}
        self.rng_state = None         # of numpy
        self.py_rng = None            # of the module random
        self.entropy = None           # what the system's source of entropy gives
        self.out = io.StringIO()
        self.err = io.StringIO()
        self.h5 = []                  # open SimH5 handles
        self.files = []               # open SimRaw files
        self.queues = []              # queues this process has fed
        self.nchild = 0
        self.error = None             # uncaught exception (repr)
        self.result = None

    @property
    def ended(self):
        return self.state in (DONE, DEAD)


class Task:
    def __init__(self, k, proc, name, fn):
        self.k = k
        self.proc = proc
        self.name = name
        self.fn = fn
        self.state = READY
        self.baton = _Lock()
        self.baton.acquire()
        self.n = 0                    # local yield-point count
        self.ops = 0                  # local seam-op count
        self.next_preempt = -1        # -1: never
        self.next_fault = -1
        self.pred = None
        self.deadline = None
        self.timed_out = False
        self.ident = None
        self.thread = None
        self.exc = None
        self.idx = 0
        self.prio = 0
        self.faults = []
        self.lastline = None


class Pump:
    """A schedulable activity without a thread of its own (a queue feeder)."""
    def __init__(self, name, proc, ready, step):
        self.name, self.proc, self.ready, self.step = name, proc, ready, step


class Policy:
    """Decides every scheduling choice.  kind:
       seq     run to block, lowest index first
       rtb     run to block, random next
       rw      random walk: at each line with prob p, at each op with prob q
       pct     random priorities with d change points
       replay  sparse recorded deviations
    """
    def __init__(self, spec, rng):
        self.spec = spec
        self.kind = spec.get("kind", "seq")
        self.p = spec.get("p", 0.0)
        self.q = spec.get("q", 0.0)
        self.timer_p = spec.get("timer_p", 0.1)
        self.hot = spec.get("hot")
        self.rng = rng
        self.dev = None
        if self.kind == "replay":
            self.dev = {}
            for task, n, j, target in spec["dev"]:
                self.dev.setdefault(task, {})[(n, j)] = target
        self.points = set()
        if self.kind == "pct":
            for _ in range(spec.get("d", 3)):
                self.points.add(rng.randint(1, max(2, spec.get("span", 400))))

    def init_task(self, t):
        if self.kind == "replay":
            t.dev_keys = sorted(set(n for n, j in self.dev.get(t.name, {})))
            t.dev_i = 0
        elif self.kind == "pct":
            t.prio = self.rng.random()
        self.arm(t)

    def arm(self, t):
        """set the next local count at which the task asks for a decision"""
        k = self.kind
        if k == "rw":
            if self.p > 0:
                u = self.rng.random()
                gap = 1
                # geometric
                import math
                gap = 1 + int(math.log(max(u, 1e-12)) / math.log(1.0 - min(self.p, 0.999)))
                t.next_preempt = t.n + gap
            else:
                t.next_preempt = -1
        elif k == "replay":
            keys = t.dev_keys
            while t.dev_i < len(keys) and keys[t.dev_i] <= t.n:
                t.dev_i += 1
            t.next_preempt = keys[t.dev_i] if t.dev_i < len(keys) else -1
        elif k == "pct":
            t.next_preempt = -1
        else:
            t.next_preempt = -1

    def at_op(self, t, kind):
        """preempt at this seam op?"""
        if self.kind == "rw":
            q = self.q
            if self.hot and any(kind.startswith(h) for h in self.hot):
                q = max(q, 0.5)
            return q > 0 and self.rng.random() < q
        return False

    def choose(self, k, t, forced, ready, pumps, timers):
        """return the chosen entity; `forced` = t cannot continue"""
        default = self.default(k, t, forced, ready, pumps, timers)
        kind = self.kind
        if kind == "replay":
            d = self.dev.get(t.name if t is not None else "")
            target = d.get(k.pick_key) if d else None
            if target is not None:
                for e in ready + pumps + timers:
                    if e.name == target:
                        return e, default
            return default, default
        if kind == "seq":
            return default, default
        rng = self.rng
        if kind == "pct":
            cand = list(ready)
            if pumps and (not cand or rng.random() < 0.6):
                return rng.choice(pumps), default
            if cand:
                best = max(cand, key=lambda e: e.prio)
                return best, default
            return default, default
        cand = ready + pumps
        if timers and (not cand or rng.random() < self.timer_p):
            cand = cand + timers
        if not forced and t in ready and kind == "rtb":
            return t, default
        return rng.choice(cand), default

    @staticmethod
    def default(k, t, forced, ready, pumps, timers):
        if not forced and t in ready:
            return t
        if pumps:
            return pumps[0]
        if ready:
            i = t.idx if t is not None else -1
            later = [e for e in ready if e.idx > i]
            return (later or ready)[0]
        if timers:
            return min(timers, key=lambda e: (e.deadline, e.idx))
        return None


class Kernel:
    def __init__(self, seed, policy, faults=(), step_cap=200000, scratch=None, config=None):
        self.seed = seed
        self.rng = random.Random(seed)
        self.policy = Policy(policy, random.Random(self.rng.getrandbits(64)))
        self.frng = random.Random(self.rng.getrandbits(64))
        self.faults = [dict(f) for f in faults]
        for i, f in enumerate(self.faults):
            f["_i"] = i
            f["_fired"] = False
        self.step_cap = step_cap
        self.scratch = scratch
        self.config = dict(flock=True, pipe_cap=65536, clock=None)
        self.config.update(config or {})
        self.tasks = []
        self.procs = []
        self.pumps = []
        self.current = None
        self.quiet = 0
        self.armed = True             # workloads clear it where no fault may be injected
        self.now = 1.7e9
        self.t0 = self.now
        self.steps = 0
        self.switches = 0
        self.trace = []               # sparse deviations [task, n, target]
        self.events = []              # op log (task, n, kind, label)
        self.hash = hashlib.blake2b(digest_size=12)
        self.done = threading.Event()
        self.aborting = False
        self.stuck = None             # deadlock / step cap description
        self.harness_error = None
        self.fired = {}
        self.opcount = {}
        self.npid = 100
        self.fcntl_locks = {}         # ino -> {proc: mode}
        self.flocks = {}              # ino -> list[(handle, proc, mode)]
        self.prepare_proc = None      # callback(proc): load modules etc.
        self.enter_proc = None        # callback(old, new)
        self.op_hooks = []            # oracle callbacks(k, t, kind, label)
        self.line_hook = None
        self.reads = 0
        self.probes = {}
        self.record_ops = True
        self._last_proc = None
        self.pick_key, self._pk_task = (0, -1), None
        self.clock_jumps = sorted((self.config.get("clock") or {}).get("jumps", []))

    # -- process / task creation -------------------------------------------
    def new_proc(self, name, fn, parent=None, daemon=False, is_child=False):
        self.npid += 1
        p = Proc(name, self.npid, parent, daemon, is_child)
        self.procs.append(p)
        if parent is not None:
            parent.children.append(p)
        if self.prepare_proc:
            self.prepare_proc(p)
        self.new_task(p, name, fn)
        return p

    def new_task(self, proc, name, fn):
        t = Task(self, proc, name, fn)
        t.idx = len(self.tasks)
        self.tasks.append(t)
        proc.tasks.append(t)
        t.faults = [f for f in self.faults if f.get("task", f.get("proc")) == name]
        self._arm_faults(t)
        self.policy.init_task(t)
        self.quiet += 1               # the carrier thread is a real one
        try:
            th = threading.Thread(target=self._thread_main, args=(t,), daemon=True, name=name)
            t.thread = th
            _Thread_start(th)
        finally:
            self.quiet -= 1
        return t

    def _arm_faults(self, t):
        ns = [max(f["at"][1], f.get("_due", 0)) for f in t.faults if not f["_fired"] and f["at"][0] == "step"]
        ns = [n for n in ns if n > t.n]
        t.next_fault = min(ns) if ns else -1

    def _thread_main(self, t):
        t.ident = threading.get_ident()
        t.baton.acquire()
        if self.aborting:
            t.state = DEAD
            return
        try:
            try:
                t.fn()
            except SimKilled:
                t.state = DEAD
                return
            except BaseException as e:   # uncaught in simulated main
                if self.aborting or t.state == DEAD:
                    t.state = DEAD       # raised while a dead task's stack unwinds
                    return
                t.exc = e
                t.proc.error = repr(e)
            if self.aborting:
                t.state = DEAD
                return
            t.state = DONE
            t.n += 1                     # the end of a task is a decision of its own
            self._reschedule(t, forced=True)
        except SimKilled:
            t.state = DEAD
        except BaseException as e:       # harness bug
            import traceback
            self.harness_error = traceback.format_exc()
            self.finish()

    # -- running -----------------------------------------------------------
    def run(self, wall=60.0):
        global KERNEL
        KERNEL = self
        try:
            first = self._pick(None, True)
            if first is None:
                raise HarnessError("nothing to run")
            self._activate(first)
            if not self.done.wait(wall):
                self.harness_error = "wall timeout: current=%s n=%s last=%s" % (
                    self.current and self.current.name, self.current and self.current.n,
                    self.current and self.current.lastline)
                raise HarnessError(self.harness_error)
            if self.harness_error:
                raise HarnessError(self.harness_error)
        finally:
            self._unwind()
            KERNEL = None

    def _activate(self, t):
        old = self._last_proc
        if t.proc is not old:
            if self.enter_proc:
                self.enter_proc(old, t.proc)
            self._last_proc = t.proc
        self.current = t
        t.baton.release()

    def finish(self):
        self.current = None
        self.done.set()

    def _unwind(self):
        self.aborting = True
        self.current = None
        for t in self.tasks:
            if _Thread_alive(t.thread):
                try:
                    t.baton.release()
                except RuntimeError:
                    pass
                _Thread_join(t.thread, 5.0)
                if _Thread_alive(t.thread):
                    self.probes["thread_leak"] = self.probes.get("thread_leak", 0) + 1
        if self.enter_proc and self._last_proc is not None:
            self.enter_proc(self._last_proc, None)
            self._last_proc = None

    # -- scheduling --------------------------------------------------------
    def _candidates(self):
        ready, timers = [], []
        self.quiet += 1                   # predicates are not simulated code
        try:
            for t in self.tasks:
                if t.state == READY:
                    ready.append(t)
                elif t.state == BLOCKED:
                    if t.pred is not None and t.pred():
                        ready.append(t)
                    elif t.deadline is not None:
                        timers.append(t)
        finally:
            self.quiet -= 1
        pumps = [p for p in self.pumps if p.ready()]
        return ready, pumps, timers

    def _pick(self, t, forced):
        while True:
            if self.steps > self.step_cap:
                self.stuck = self.stuck or "step cap %d reached" % self.step_cap
                return None
            ready, pumps, timers = self._candidates()
            if not (ready or pumps or timers):
                live = [x for x in self.tasks if x.state == BLOCKED and not self._orphan(x.proc)]
                if live:
                    self.stuck = "deadlock: " + ", ".join(
                        "%s blocked at %s" % (x.name, x.lastline) for x in live)
                return None
            if not ready and not pumps and all(self._orphan(x.proc) for x in timers):
                return None
            n = t.n if t is not None else 0
            if t is self._pk_task and n == self.pick_key[0]:
                self.pick_key = (n, self.pick_key[1] + 1)
            else:
                self.pick_key, self._pk_task = (n, 0), t
            e, default = self.policy.choose(self, t, forced, ready, pumps, timers)
            if e is not default:
                self.trace.append([t.name if t is not None else "", self.pick_key[0], self.pick_key[1], e.name])
            if e is not t:
                self.hash.update(("%s@%d>%s;" % (t.name if t else "", t.n if t else 0, e.name)).encode())
            if isinstance(e, Pump):
                self.steps += 1
                e.step()
                if t is not None and not forced:
                    # a pump ran; the preempted task simply continues
                    if t.state == READY:
                        return t
                continue
            if e.state == BLOCKED:
                if e in timers and e not in ready:
                    e.timed_out = True
                    if e.deadline > self.now:
                        self.now = e.deadline
                else:
                    e.timed_out = False
                e.pred = None
                e.deadline = None
                e.state = READY
            return e

    def _orphan(self, p):
        """descendant of a dead process, or a daemon nobody waits for"""
        while p.parent is not None:
            if p.parent.state == DEAD:
                return True
            p = p.parent
        return False

    def _reschedule(self, t, forced):
        """choose who runs next; returns when t holds the baton again
        (never returns for a finished/dead task)."""
        if t.state == DONE:
            self._task_done(t)
        nxt = self._pick(t, forced)
        if nxt is t:
            return
        if nxt is None:
            self.finish()
        else:
            self.switches += 1
            self._activate(nxt)
        if t.state == DONE:
            return
        t.baton.acquire()
        if self.aborting:
            raise SimKilled()

    def _task_done(self, t):
        p = t.proc
        if p.state == READY and all(x.state in (DONE, DEAD) for x in p.tasks):
            self.end_proc(p, killed=False)

    # -- yield points -------------------------------------------------------
    def line(self, code, lineno):
        t = self.current
        if t is None or self.quiet or t.ident != threading.get_ident():
            if self.aborting and KERNEL is self:
                raise SimKilled()
            return
        t.n += 1
        self.steps += 1
        t.lastline = (code.co_filename, lineno)
        self.now += 1e-6
        if self.line_hook:
            self.line_hook(t, code, lineno)
        if t.n == t.next_fault:
            self._fire_step_fault(t)
        if t.n == t.next_preempt:
            self.policy.arm(t)
            self._preempt(t)
        elif self.steps > self.step_cap:
            self._stuck(t)
        elif self.policy.points and self.steps in self.policy.points:
            self._pct_change(t)

    def _pct_change(self, t):
        t.prio = -self.policy.rng.random()
        self._preempt(t)

    def _stuck(self, t):
        self.stuck = "step cap %d reached in %s at %s" % (self.step_cap, t.name, t.lastline)
        self.finish()
        t.state = BLOCKED
        t.baton.acquire()
        raise SimKilled()

    def _preempt(self, t):
        self._reschedule(t, forced=False)

    def op(self, kind, label="", **info):
        """A seam operation.  Returns a list of faults to apply at this op
        (error kinds); kill faults do not return."""
        t = self.current
        if t is None or t.ident != threading.get_ident():
            if self.aborting:
                raise SimKilled()
            return ()
        if self.quiet:
            return ()
        t.n += 1
        t.ops += 1
        self.steps += 1
        self.now += 2e-5
        key = (t.name, kind, label)
        c = self.opcount[key] = self.opcount.get(key, 0) + 1
        if self.record_ops:
            self.events.append((t.name, t.n, kind, label, c))
        self.hash.update(("%s:%s:%s;" % (t.name, kind, label)).encode())
        for h in self.op_hooks:
            h(self, t, kind, label)
        if t.n == t.next_fault:
            self._fire_step_fault(t, kind)
        out = []
        if t.faults and self.armed:
            for f in t.faults:
                if f["_fired"] and not f.get("sticky"):
                    continue
                a = f["at"]
                if a[0] != "op":
                    continue
                if a[1] != kind or (a[2] is not None and a[2] != label):
                    continue
                if (c == a[3]) or (f.get("sticky") and f["_fired"]):
                    self._note(f)
                    if f["kind"] == "kill":
                        self.die(t)
                    if f["kind"] in RAISES:
                        raise RAISES[f["kind"]]()
                    if f["kind"] == "stall":
                        self.block(lambda: False, self.now + f.get("dt", 10.0), "stall")
                        continue
                    out.append(f)
        if t.n == t.next_preempt:
            self.policy.arm(t)
            self._preempt(t)
        elif self.policy.at_op(t, kind):
            self._preempt(t)
        elif self.steps > self.step_cap:
            self._stuck(t)
        elif self.policy.points and self.steps in self.policy.points:
            self._pct_change(t)
        return out

    def _note(self, f):
        f["_fired"] = True
        f.setdefault("_evs", []).append(len(self.events))
        self.fired[f["kind"]] = self.fired.get(f["kind"], 0) + 1

    def in_cleanup(self, t):
        """the task is at a line where no code could handle a stray exception"""
        from . import loader
        x = t.lastline
        while x is not None and isinstance(x[1], tuple):
            x = x[1]
        return x is not None and x[1] in loader.CLEANUP.get(x[0], ())

    def _fire_step_fault(self, t, kind=None):
        n = t.n
        if not self.armed:
            self._arm_faults(t)
            return
        for f in t.faults:
            if not f["_fired"] and f["at"][0] == "step" and (f["at"][1] == n or f.get("_due") == n):
                if f["kind"] in RAISES and (kind == "tlock" or self.in_cleanup(t)):
                    f["_due"] = n + 1
                    continue
                self._note(f)
                self._arm_faults(t)
                if f["kind"] == "kill":
                    self.die(t)
                if f["kind"] == "stall":
                    self.block(lambda: False, self.now + f.get("dt", 10.0), "stall")
                    continue
                raise RAISES[f["kind"]]()
        self._arm_faults(t)

    def block(self, pred, deadline=None, what=""):
        """Block the current task until pred() or the simulated deadline.
        Returns True if pred held, False on timeout."""
        t = self.current
        t.n += 1
        self.steps += 1
        t.pred, t.deadline = pred, deadline
        t.state = BLOCKED
        t.timed_out = False
        ll = t.lastline
        t.lastline = (what, ll)
        self._reschedule(t, forced=True)
        t.lastline = ll
        return not t.timed_out

    # -- process end ---------------------------------------------------------
    def die(self, t, exitcode=-9):
        """SIGKILL of the current task's process, at this instant."""
        p = t.proc
        self.kill_proc(p, exitcode)
        t.state = DEAD
        t.n += 1
        nxt = self._pick(t, True)
        if nxt is None:
            self.finish()
        else:
            self._activate(nxt)
        t.baton.acquire()
        raise SimKilled()

    def kill_proc(self, p, exitcode=-9):
        if p.ended:
            return
        for x in p.tasks:
            if x.state != DONE:
                x.state = DEAD
                x.pred = None
                x.deadline = None
        p.exitcode = exitcode
        self.end_proc(p, killed=True)

    def end_proc(self, p, killed):
        if not killed:
            for h in EXIT_HOOKS:
                h(self, p)
            p.state = DONE
            if p.exitcode is None:
                p.exitcode = 0 if p.error is None else 1
        else:
            p.state = DEAD
        for h in DEATH_HOOKS:
            h(self, p, killed)
        # release kernel-owned locks
        for ino, owners in list(self.fcntl_locks.items()):
            owners.pop(p, None)
        for ino, hs in list(self.flocks.items()):
            self.flocks[ino] = [x for x in hs if x[1] is not p]
        if not killed:
            # a normally exiting parent terminates its daemons
            for c in p.children:
                if c.daemon and not c.ended:
                    self.kill_proc(c, -15)

    def advance(self, dt):
        self.now += dt

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    def digest(self):
        return self.hash.hexdigest()


def _oserr(no):
    def mk():
        return OSError(no, os.strerror(no))
    return mk


RAISES = {"kbd": KeyboardInterrupt, "mem": MemoryError, "sysexit": lambda: SystemExit(1)}
EXIT_HOOKS = []
DEATH_HOOKS = []
