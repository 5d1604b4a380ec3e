"""C03 Storage errors during accumulation surface and are never half-applied."""
import copy

from .. import gen
from . import accum, base
from .c02 import add_late


class C03(base.Prop):
    id = "C03"
    rule = ("1 run = 1-3 simulated worker processes accumulate into one HH/HT pair, with and without retrying failed "
            "calls; 1-3 storage errors (EIO, ENOSPC, EACCES, EMFILE, ENOLCK, spawn failure; single or persistent) at "
            "HDF5 open/read/write/flush/close, lock, file and rename operations chosen from a fault-free run of the "
            "same scenario; then a new worker adds data and a new process solves. The files are decoded into the set "
            "of contributions. Non-trivial: an error fired or the schedule deviated.")
    real = ["hpelm.hp_elm, hpelm.elm, hpelm.nnets, hpelm.modules", "fasteners", "PyTables/HDF5 (core driver)",
            "numpy/scipy"]
    stub = ["disk image exchange, HDF5 and fcntl locks", "process scheduler", "clock",
            "multiprocessing pipes/queues/processes"]
    assumptions = ["an HDF5 call that fails raises HDF5ExtError, as PyTables does",
                   "closing a file after a failed flush may still store its data"]

    def gen(self, rng, i):
        scn = accum.gen_scn(rng, 3, faulty=True)
        add_late(rng, scn)
        for w in scn["workers"]:
            w["retry"] = rng.choice([0, 0, 1, 2])
            w["fresh"] = rng.random() < 0.3
        if rng.random() < 0.3:
            scn["late"]["peek"] = rng.choice(["solve_corr", "solve_corr", "validation_corr"])
        return scn

    def fault_plans(self, rng, scn, out):
        tasks = [t for t in out.task_n if t.startswith("w")]
        pts = base.io_points(out, tasks)
        pts = [p for p in pts if p[2] != "model.pkl"]
        shared = [p for p in pts if p[2].startswith("H")]
        peek = base.io_points(out, ["late"], scn["names"], ["h5open:r", "h5list", "h5node", "h5read", "h5close"]) if scn["late"].get("peek") else []
        plans = []
        if not pts:
            return plans
        for _ in range(4):
            n = rng.choice([1, 1, 1, 2, 3])
            faults = [base.io_fault(rng, shared if shared and rng.random() < 0.6 else pts) for _ in range(n)]
            if peek and rng.random() < 0.6:
                faults[0] = base.io_fault(rng, peek, 0)
            plans.append((faults, None if rng.random() < 0.5 else gen.policy(rng)))
        return plans

    def body(self, scn, run, out):
        A = accum.Accum(scn, run)
        P = accum.Publications(A)
        A.setup()
        late = run.main("late", lambda env: A.worker(env, scn["late"]),
                        after=lambda: all(p.ended for p in A.procs.values()))
        run.main("solver", A.solver, after=lambda: late.ended)
        k = run.go()
        if k.stuck:
            out.bad("stuck", k.stuck)
            return
        must, may, window = [], [], {}
        for cid in A.calls:
            st = A.status.get(cid)
            w = cid.split(".")[0]
            if st == "ok":
                must.append(cid)
            elif st and st.startswith("exc"):
                a, b = A.span[cid]
                if not base.fault_hits(k, w, a, b):
                    out.bad("spurious-failure", "%s failed without an error of its own: %s" % (cid, st))
                may.append(cid)
                one = P.pair_window(cid, k.events, w, b)
                if one:
                    window[cid] = one
            else:
                out.bad("not-run", "%s ended as: %s" % (cid, st))
        if getattr(A, "peeked", None):
            w, a, b, r, there = A.peeked
            if there and r != "ok" and not base.fault_hits(k, w, a, b):
                out.bad("peek", "reading the files failed without an error of its own: %s" % r)
        for p in k.procs:
            if p.error and "/" not in p.name:
                out.bad("proc-error", "%s: %s" % (p.name, p.error))
        S = accum.judge_pair(A, out, must, may, window, "C03-pair")
        if out.violations:
            return
        A.check_mem(out)
        if A.missing:
            return
        if S is not None and not out.known:
            A.check_solution(out, must + sorted(S))
        elif isinstance(getattr(A, "B", None), str):
            out.bad("solution", "solving from the files failed: %s" % A.B)

    def shrink(self, scn):
        yield from accum.shrink(scn)
        for i, w in enumerate(scn["workers"]):
            for key, val in (("retry", 0), ("fresh", False)):
                if w.get(key):
                    s = copy.deepcopy(scn)
                    s["workers"][i][key] = val
                    yield s

    def known_probes(self):
        a = accum.small_scn(faults=[{"task": "w0", "at": ["op", "h5open:a", "HT.h5", 1], "kind": "eio"}])
        return [("C03-pair", a)]


PROP = C03()
