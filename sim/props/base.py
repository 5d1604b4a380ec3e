"""Common base of all properties."""
import copy
import gc
import importlib
import random

from .. import engine, kernel as K


class Outcome:
    def __init__(self):
        self.violations = []     # [{"cls":..., "msg":...}]
        self.known = []          # [{"finding": id, "msg":...}]
        self.stats = {}
        self.events = []
        self.task_n = {}
        self.trace = []
        self.log = []
        self.digest = ""
        self.nontrivial = False
        self.probes = {}

    def bad(self, cls, msg):
        self.violations.append({"cls": cls, "msg": msg})

    def kf(self, finding, msg):
        self.known.append({"finding": finding, "msg": msg})

    def classes(self):
        return sorted(set(v["cls"] for v in self.violations))


class Prop:
    id = ""
    rule = ""
    real = []
    stub = []
    assumptions = []
    quick_s = 60
    thorough_s = 600
    fault_variants = 2           # fault variants per fault-free profile run
    min_share_faulted = 0.0

    def gen(self, rng, i):
        raise NotImplementedError

    def fault_plans(self, rng, scn, out):
        """list of (faults, policy or None) to try on the scenario that just ran clean"""
        return []

    def body(self, scn, run, out):
        """set up and execute the run, then judge it (append to out)"""
        raise NotImplementedError

    def shrink(self, scn):
        return []

    def known_probes(self):
        """[(finding id, scenario)] whose failure is a listed finding"""
        return []

    def run(self, scn, wall=40.0):
        out = Outcome()
        run = engine.Run(scn)
        try:
            try:
                self.body(scn, run, out)
            except K.HarnessError as e:
                if "wall timeout" in str(e):
                    out.bad("wall-hang", str(e))
                else:
                    raise
            k = run.k
            out.events = k.events
            out.task_n = {t.name: t.n for t in k.tasks}
            out.trace = k.trace
            out.log = run.log
            out.digest = k.digest()
            out.probes = k.probes
            out.stats = {"steps": k.steps, "switches": k.switches, "sim_s": k.now - k.t0,
                         "fired": dict(k.fired), "nops": len(k.events), "probes": dict(k.probes)}
            out.nontrivial = getattr(out, "nontrivial_history", False) or bool(k.trace) or bool(k.fired) or k.switches > len(k.procs)
            out.fired = [f for f in k.faults if f["_fired"]]
        finally:
            run.close()
        return out


def load(pid):
    m = importlib.import_module("sim.props." + pid.lower())
    return m.PROP


def collect():
    gc.collect()


def pick_steps(rng, out, tasks, n, ops_bias=0.6, kinds=None):
    """choose n (task, step) places, biased towards seam operations"""
    res = []
    ev = [e for e in out.events if e[0] in tasks and (kinds is None or any(e[2].startswith(x) for x in kinds))]
    for _ in range(n):
        if ev and rng.random() < ops_bias:
            e = rng.choice(ev)
            res.append((e[0], e[1] + rng.choice([0, 0, 1])))
        else:
            t = rng.choice(tasks)
            res.append((t, rng.randint(1, max(1, out.task_n.get(t, 1)))))
    return res


def drop_each(scn, key):
    items = scn.get(key) or []
    for i in range(len(items)):
        s = copy.deepcopy(scn)
        del s[key][i]
        yield s


# which errors each seam operation can meet
IO_FAULTS = {
    "h5open:r": ["eio", "emfile", "eacces"], "h5open:a": ["eio", "emfile", "eacces"],
    "h5open:r+": ["eio", "emfile", "eacces"], "h5open:w": ["eio", "emfile", "eacces", "enospc"],
    "h5node": ["eio"], "h5list": ["eio"], "h5read": ["eio"], "h5write": ["eio", "enospc"], "h5append": ["eio", "enospc"],
    "h5flush": ["eio", "enospc"], "h5close": ["eio", "enospc"], "h5attr": ["eio", "enospc"],
    "fopen": ["eio", "emfile", "eacces", "enospc"], "fread": ["eio"], "fwrite": ["eio", "enospc"],
    "fclose": ["eio", "enospc"], "lock": ["enolck", "eio"], "replace": ["eio", "enospc", "eacces"],
    "rename": ["eio", "enospc", "eacces"], "remove": ["eio"], "unlink": ["eio"], "link": ["eio", "enospc"],
    "fsync": ["eio", "enospc"], "spawn": ["eagain"],
}


def io_points(out, tasks, labels=None, kinds=None):
    """(task, kind, label, nth) of every operation that can fail"""
    return [(e[0], e[2], e[3], e[4]) for e in out.events
            if e[0] in tasks and e[2] in IO_FAULTS and (labels is None or e[3] in labels)
            and (kinds is None or e[2] in kinds)]


def io_fault(rng, points, sticky=0.15):
    t, kind, lab, nth = points[rng.randrange(len(points))]
    f = {"task": t, "at": ["op", kind, lab, nth], "kind": rng.choice(IO_FAULTS[kind])}
    if f["kind"] in ("eio", "enospc") and kind == "fwrite":
        f["frac"] = rng.choice([0.0, 0.3, 0.9])
    if kind == "h5flush" and rng.random() < 0.5:
        f["lost"] = True
    if rng.random() < sticky:
        f["sticky"] = True
    return f


def fault_hits(k, task, a, b, family=True):
    """faults that fired in task (and its helpers) between event indexes a and b"""
    r = []
    for f in k.faults:
        t = f.get("task", "")
        if t != task and not (family and t.startswith(task + "/")):
            continue
        lo = a + 1 if f["at"][0] == "op" else a        # an operation is recorded before its fault
        if any(lo <= e <= b for e in f.get("_evs", ())):
            r.append(f)
    return r
