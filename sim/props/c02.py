"""C02 A killed worker neither corrupts nor blocks the shared accumulation."""
import copy

from .. import gen
from . import accum, base


def add_late(rng, scn):
    """a worker started after everybody else ended"""
    n = gen.nrows(scn["X"])
    m = rng.randint(1, 3)
    c = scn["outputs"]
    if isinstance(scn["X"], dict):
        scn["X"]["n"] = scn["T"]["n"] = n + m      # the rows before stay the same
    else:
        scn["X"] = scn["X"] + gen.int_matrix(rng, m, scn["inputs"])
        scn["T"] = scn["T"] + (gen.onehot(rng, m, c, cover=False) if scn["cls"] else gen.int_matrix(rng, m, c))
    for w in scn["workers"]:
        for cc in w["calls"]:
            if cc["icount"] is None:
                cc["icount"] = n - cc["istart"]
    scn["late"] = {"name": "late", "calls": [{"istart": n, "icount": m, "async": False}],
                   "model": rng.choice(["new", "load", "basic"]), "batch": rng.choice([1, 2, 10]), "after": []}
    return scn


class C02(base.Prop):
    id = "C02"
    rule = ("1 run = 1-3 simulated worker processes accumulate into one HH/HT pair; SIGKILLs at source lines or "
            "file/HDF5/lock/queue operations chosen from a fault-free run of the same scenario (also inside the "
            "write of a file being created, and of async helper processes); then a new worker adds data and a new "
            "process solves. The files are decoded into the set of contributions. Non-trivial: a kill fired or the "
            "schedule deviated.")
    real = ["hpelm.hp_elm, hpelm.elm, hpelm.nnets, hpelm.modules", "fasteners", "PyTables/HDF5 (core driver)",
            "numpy/scipy"]
    stub = ["disk image exchange, HDF5 and fcntl locks (released at death)", "process scheduler and death", "clock",
            "multiprocessing pipes/queues/processes"]
    assumptions = ["process kill, not power loss: data handed to the OS survives", "fcntl locks are released when "
                   "their owner dies", "HDF5 writes one flush atomically with respect to a kill, except in the probe "
                   "of the listed finding C02-torn"]

    def gen(self, rng, i):
        scn = accum.gen_scn(rng, 3, faulty=True)
        return add_late(rng, scn)

    def fault_plans(self, rng, scn, out):
        tasks = [t for t in out.task_n if t.startswith("w") and out.task_n[t] > 0]
        mains = [t for t in tasks if "/" not in t]
        plans = []
        for _ in range(4):
            n = rng.choice([1, 1, 1, 2, 2, 3])
            faults = []
            for t, at in base.pick_steps(rng, out, tasks if rng.random() < 0.25 else mains, n):
                faults.append({"task": t, "at": ["step", at], "kind": "kill"})
            r = rng.random()
            if r < 0.2:
                lab = rng.choice(scn["names"]) + ".tmp"
                faults[0] = {"task": faults[0]["task"], "at": ["op", rng.choice(["h5flush", "h5close"]), lab, 1],
                             "kind": "killmid", "frac": rng.choice([0.0, 0.3, 0.5, 0.9])}
            if rng.random() < 0.25:
                faults += [{"task": t, "at": ["step", at], "kind": "stall", "dt": rng.choice([1.0, 100.0, 5000.0])}
                           for t, at in base.pick_steps(rng, out, mains, 1, 0.7, ["h5", "lock"])]
            plans.append((faults, None if rng.random() < 0.5 else gen.policy(rng)))
        return plans

    def body(self, scn, run, out):
        A = accum.Accum(scn, run)
        P = accum.Publications(A)
        A.setup()
        late = run.main("late", lambda env: A.worker(env, scn["late"]),
                        after=lambda: all(p.ended for p in A.procs.values()))
        run.main("solver", A.solver, after=lambda: late.ended)
        A.expect_files = True
        k = run.go()
        if k.stuck:
            out.bad("stuck", k.stuck)
            return
        killed = {p.name for p in k.procs if p.state == "dead" and p.exitcode == -9}
        touched = {n.split("/")[0] for n in killed}
        must, may, window = [], [], {}
        for cid in A.calls:
            st = A.status.get(cid)
            w = cid.split(".")[0]
            if st == "ok":
                must.append(cid)
            elif st == "running" and w in killed:
                may.append(cid)
                one = P.pair_window(cid, k.events, w)
                if one:
                    window[cid] = one
            elif st is None and w in killed:
                pass
            elif st and st.startswith("exc") and w in touched and w not in killed:
                may.append(cid)          # an async helper was killed: the call reports it
            elif st and st.startswith("exc") and w in killed and any(x.startswith(w + "/") for x in killed):
                may.append(cid)
            elif st is None and w in touched:
                pass
            else:
                out.bad("call-failed", "%s (not killed) ended as: %s" % (cid, st))
        torn = [f for f in k.faults if f["_fired"] and f["kind"] == "killmid" and f["at"][2] in ("HH.h5", "HT.h5")]
        if torn:                         # only the probe of this listed finding injects it
            HH, HT, e1, e2 = A.files()
            bad = [n for n, M, w in (("HH", HH, 0), ("HT", HT, 1))
                   if M is None or not any(A.same(M, A.sums(must + m)[w]) for m in ([], may))]
            if bad == [torn[0]["at"][2][:2]]:
                out.violations = []
                out.kf("C02-torn", "%s is a mixture after a kill inside its write" % bad[0])
                return
        S = accum.judge_pair(A, out, must, may, window, "C02-pair")
        if out.violations:
            return
        A.check_mem(out)
        if S is not None and not out.known:
            A.check_solution(out, must + sorted(S))
        elif isinstance(getattr(A, "B", None), str):
            out.bad("solution", "solving from the files failed: %s" % A.B)

    def shrink(self, scn):
        return accum.shrink(scn)

    def known_probes(self):
        a = accum.small_scn(faults=[{"task": "w0", "at": ["op", "lock", "HT.h5.lock", 2], "kind": "kill"}])
        big = accum.small_scn(L=48, neurons=[["lin", [[1 + i % 3 for i in range(48)]], [i % 5 - 2 for i in range(48)]]],
                              faults=[{"task": "w0", "at": ["op", "h5flush", "HH.h5", 1], "kind": "killmid",
                                       "frac": 0.2}])
        return [("C02-pair", a), ("C02-torn", big)]


PROP = C02()
