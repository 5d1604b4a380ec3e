"""C01 Parallel on-disk training equals sequential training."""
import copy
import os

import numpy as np

from .. import engine, gen, refmodel as R
from . import accum, base


class C01(base.Prop):
    id = "C01"
    rule = ("1 run = 2-4 simulated processes add disjoint row ranges of integer-valued data to one HH/HT pair "
            "(files absent, one or both present, left-over lock files, resumed), HDF5 file locking on or off, "
            "then a fresh process solves; schedule = seeded random walk / PCT / run-to-block over every source "
            "line and every file, lock, queue operation; in part of the runs workers are stalled for seconds to hours at "
            "any step (also while they hold a lock). Non-trivial: at least one schedule deviation.")
    real = ["hpelm.hp_elm, hpelm.elm, hpelm.nnets, hpelm.modules", "fasteners", "PyTables/HDF5 (core driver)",
            "numpy/scipy"]
    stub = ["disk image exchange and HDF5 file locks", "fcntl locks", "process scheduler", "clock",
            "multiprocessing queues/processes"]
    assumptions = ["HDF5 publishes file content at flush/close", "fcntl locks behave as POSIX says (local file system)"]

    def gen(self, rng, i):
        scn = accum.gen_scn(rng)
        if rng.random() < 0.25 and len(scn["X"]) < 100:      # meanwhile, other files next to these
            L = rng.choice([scn["L"], rng.randint(1, 4)])
            a, b = [os.path.basename(n) if "/" in n else rng.choice(["sub/" + n, "o" + n]) for n in scn["names"]]
            n = rng.randint(1, len(scn["X"]))
            scn["other"] = {"L": L, "neurons": gen.lin_neurons(rng, scn["inputs"], L), "names": [a, b],
                            "workers": [[rng.randrange(n), rng.randint(1, 3)] for _ in range(rng.choice([1, 1, 2]))]}
        return scn

    def fault_plans(self, rng, scn, out):
        tasks = [t for t in out.task_n if t.startswith("w") and out.task_n[t] > 0]
        plans = []
        for _ in range(2):
            faults = [{"task": t, "at": ["step", at], "kind": "stall", "dt": rng.choice([1.0, 100.0, 5000.0])}
                      for t, at in base.pick_steps(rng, out, tasks, rng.choice([1, 2, 3]), 0.7, ["h5", "lock"])]
            plans.append((faults, gen.policy(rng)))
        return plans

    def body(self, scn, run, out):
        A = accum.Accum(scn, run)
        A.setup()
        o = scn.get("other")
        N = len(scn["X"])
        for i, (a, n) in enumerate(o["workers"] if o else []):
            def other(env, a=a % N, n=n):
                m = env.hpelm.HPELM(scn["inputs"], scn["outputs"], norm=1.0, batch=scn["batch"], precision=scn["precision"])
                for f, W, B in gen.np_neurons(o["neurons"]):
                    m.add_neurons(W.shape[1], f, W, B)
                m.add_data(env.path("X.h5"), env.path("T.h5"), istart=a, icount=n,
                           fHH=env.path(o["names"][0]), fHT=env.path(o["names"][1]))
            run.main("w-o%d" % i, other)
        run.main("solver", A.solver, after=lambda: all(p.ended for p in A.procs.values()))
        k = run.go()
        if k.stuck:
            out.bad("stuck", k.stuck)
        for cid in A.calls:
            st = A.status.get(cid)
            if st != "ok":
                out.bad("call-failed", "%s did not complete: %s" % (cid, st))
        for p in k.procs:
            if p.error and "/" not in p.name:
                out.bad("proc-error", "%s: %s" % (p.name, p.error))
        HH, HT, e1, e2 = A.files()
        want = A.sums(A.calls)
        for n, M, e, w in (("HH", HH, e1, 0), ("HT", HT, e2, 1)):
            if M is None:
                out.bad("file-" + n, "%s file: %s" % (n, e))
            elif not A.same(M, want[w]):
                out.bad("file-" + n, "%s file holds %s" % (n, A.explain(M, w)))
        if o:
            want = [np.eye(o["L"]), np.zeros((o["L"], scn["outputs"]))]
            for a, n in o["workers"]:
                C = R.corr(A.X[a % N:a % N + n], A.T[a % N:a % N + n], gen.np_neurons(o["neurons"]))
                want = [want[0] + C[0], want[1] + C[1]]
            for n, w in zip(o["names"], want):
                M, e = engine.read_h5(run.path(n))
                if M is None or not A.same(M, w):
                    out.bad("other-file", "another pair in the same directory: %s holds %s, expected %s" % (
                        n, e if M is None else np.asarray(M).tolist(), w.tolist()))
        if not out.violations:
            A.check_mem(out)
            A.check_solution(out, A.calls)

    def shrink(self, scn):
        if scn.get("other"):
            s = copy.deepcopy(scn)
            s["other"] = None
            yield s
        yield from accum.shrink(scn)


PROP = C01()
