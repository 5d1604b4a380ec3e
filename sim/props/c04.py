"""C04 Asynchronous training equals synchronous training."""
import numpy as np

from .. import gen
from . import asyncw, base


class C04(base.Prop):
    id = "C04"
    rule = ("1 run = 1-2 simulated user processes, each with a sequence of 1-3 add_data_async/train_async calls (ranges, "
            "batch sizes, class weighting, with and without HH/HT files), readers and trainer scheduled by a seeded "
            "random walk/PCT/run-to-block, pipes large or full after one message, helpers stalled for simulated "
            "seconds; accumulations and weights are compared with the reference model and with a synchronous twin "
            "run. Non-trivial: a schedule deviation or a stall.")
    real = ["hpelm.hp_elm async methods, hpelm.modules.hdf5_tools helpers, hpelm.nnets", "PyTables/HDF5 (core driver)",
            "numpy/scipy"]
    stub = ["multiprocessing processes, queues, pipes", "process scheduler", "disk image exchange", "clock"]
    assumptions = ["a pipe delivers whole messages in order; a queue's feeder may lag arbitrarily"]
    kinds = ["add", "add", "train"]

    def gen(self, rng, i):
        scn = asyncw.gen_scn(rng, self.kinds)
        if rng.random() < 0.06:
            rng.choice(scn["users"])["ops"].append(asyncw.gen_empty(rng, self.kinds, scn["N"]))
        return scn

    def fault_plans(self, rng, scn, out):
        tasks = [t for t in out.task_n if t.startswith("u") and out.task_n[t] > 0]
        plans = []
        for _ in range(2):
            faults = [{"task": t, "at": ["step", at], "kind": "stall", "dt": rng.choice([0.5, 10.0, 1000.0])}
                      for t, at in base.pick_steps(rng, out, tasks, rng.choice([1, 2, 4]))]
            plans.append((faults, gen.policy(rng)))
        return plans

    def body(self, scn, run, out):
        A = asyncw.Async(scn, run)
        A.setup()
        k = run.go()
        if k.stuck:
            out.bad("stuck", k.stuck)
            return
        for p in k.procs:
            if p.error:
                out.bad("proc-error", "%s: %s" % (p.name, p.error))
        for x in A.left:
            out.bad("helper-left", x)
        asyncw.judge_results(A, out)
        if not out.violations:
            self.twin(A, scn, out)

    def twin(self, A, scn, out):
        res, err = A.twin(out)
        if err:
            out.bad("twin", err)
            return
        single = scn["precision"] == "single"
        for u in scn["users"]:
            for j, op in enumerate(u["ops"]):
                a, b = A.res[u["name"]][j], res[u["name"]][j]
                if op.get("empty"):
                    if a["status"] == b["status"] == "ok" and op["op"] == "add" and not (
                            asyncw.same(a["HH"], b["HH"], False, single) and asyncw.same(a["HT"], b["HT"], False, single)):
                        out.bad("differs", "%s op %d: a range without rows changes the accumulation" % (u["name"], j))
                    continue
                if b["status"] != "ok":
                    out.bad("twin", "synchronous %s: %s" % (op, b["status"]))
                    continue
                for n in ("HH", "HT", "B", "wc"):
                    exact = n in ("HH", "HT")
                    if exact and op["op"] == "predict":
                        continue
                    x, y = a.get(n), b.get(n)
                    if n == "B" and not asyncw.well(b["HH"], single):
                        continue
                    if not asyncw.same(x, y, False, single):
                        out.bad("differs", "%s op %d: %s is %s asynchronously and %s synchronously" % (
                            u["name"], j, n, None if x is None else x.tolist(), None if y is None else y.tolist()))
                if a["cls"] != b["cls"]:
                    out.bad("differs", "classification %r / %r" % (a["cls"], b["cls"]))
                if op["op"] == "predict" and not asyncw.same(a["Y"], b["Y"], False, single):
                    out.bad("differs", "%s op %d: predictions differ" % (u["name"], j))

    def shrink(self, scn):
        return asyncw.shrink(scn)


PROP = C04()
