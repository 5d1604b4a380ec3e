"""C06 Asynchronous calls never hang or lie when a helper process fails."""
from .. import gen
from . import asyncw, base

BOUND = 300.0      # simulated seconds between the last fault and the end of the call


class C06(base.Prop):
    id = "C06"
    rule = ("1 run = one simulated user process makes 1-2 predict_async/add_data_async/train_async calls; 1-3 faults: "
            "SIGKILL or unexpected exit of a helper at any source line or operation, I/O errors of its HDF5 operations, "
            "memory errors in it, failure to start it, combined with stalls; pipes large or full after one message; the "
            "call must end within a bounded simulated time, raise or be completely right, and leave no helper. "
            "Non-trivial: a fault fired or the schedule deviated.")
    real = ["hpelm.hp_elm async methods, hpelm.modules.hdf5_tools helpers, hpelm.nnets", "PyTables/HDF5 (core driver)",
            "numpy/scipy"]
    stub = ["multiprocessing processes, queues, pipes, signals", "process scheduler", "disk image exchange", "clock"]
    assumptions = ["a forked child holds every pipe end its parent had open when it was started",
                   "a reader that dies inside a message leaves a partial message in its pipe"]

    def gen(self, rng, i):
        scn = asyncw.gen_scn(rng, rng.choice([["predict"], ["predict"], ["add"], ["train"], ["predict", "add"]]))
        scn["users"] = scn["users"][:1]
        scn["users"][0]["ops"] = scn["users"][0]["ops"][:2]
        scn["users"][0]["batch"] = rng.choice([1, 1, 1, 2, 3]) if scn["N"] < 100 else rng.choice([400, 1000])
        scn["stop_on_error"] = False
        return scn

    def fault_plans(self, rng, scn, out):
        helpers = [t for t in out.task_n if "/" in t and out.task_n[t] > 0]
        if not helpers:
            return []
        pts = base.io_points(out, helpers + ["u0"], labels=None)
        hp = [p for p in pts if p[0] != "u0"] + [p for p in pts if p[1] == "spawn"]
        plans = []
        for _ in range(5):
            faults = []
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                r = rng.random()
                if r < 0.4 and hp:
                    faults.append(base.io_fault(rng, hp))
                else:
                    (t, at), = base.pick_steps(rng, out, helpers, 1)
                    faults.append({"task": t, "at": ["step", at],
                                   "kind": rng.choice(["kill", "kill", "kill", "mem", "sysexit"])})
            if rng.random() < 0.25:
                (t, at), = base.pick_steps(rng, out, helpers + ["u0"], 1)
                faults.append({"task": t, "at": ["step", at], "kind": "stall", "dt": rng.choice([1.0, 50.0])})
            plans.append((faults, None if rng.random() < 0.3 else gen.policy(rng)))
        return plans

    def body(self, scn, run, out):
        A = asyncw.Async(scn, run)
        A.setup()
        k = run.go()
        if k.stuck:
            out.bad("stuck", k.stuck)
            return
        for x in A.left:
            out.bad("helper-left", x)
        for p in k.procs:
            if p.error and "/" not in p.name:
                out.bad("proc-error", "%s: %s" % (p.name, p.error))
        stall = sum(f.get("dt", 0) for f in k.faults if f["kind"] == "stall" and f["_fired"])
        for name, rs in A.res.items():
            for j, r in enumerate(rs):
                if r["status"] == "running":
                    out.bad("not-ended", "%s op %d did not end" % (name, j))
                    continue
                if r["t1"] - r["t0"] > BOUND + stall:
                    out.bad("slow", "%s op %d took %.0f simulated seconds" % (name, j, r["t1"] - r["t0"]))
                hits = [f for f in base.fault_hits(k, name, r["ev0"], r["ev1"])]
                if r["status"].startswith("exc") and not [f for f in hits if f["kind"] != "stall"]:
                    # a call after a failed one must work again
                    out.bad("spurious-failure", "%s op %d failed without a fault: %s" % (name, j, r["status"]))
        if not out.violations:
            self.results(A, out)

    def results(self, A, out):
        """a call that returned is completely right.  After a failed call the
        accumulation in memory is not specified, so only calls before the first
        failure and predictions with unchanged weights are compared."""
        scn = A.scn
        u = scn["users"][0]
        rs = A.res.get(u["name"], [])
        n = next((j for j, r in enumerate(rs) if r["status"] != "ok"), len(rs))
        before = dict(scn, users=[dict(u, ops=u["ops"][:n])])
        keep = A.scn
        A.scn = before
        asyncw.judge_results(A, out)
        A.scn = keep
        for j in range(n + 1, len(rs)):
            # calls that start from a clean state are compared as if they came first
            op = u["ops"][j]
            if rs[j]["status"] != "ok" or not (op["op"] == "train" or op["op"] == "add" and op.get("files")):
                continue
            if scn["cls"] == "wc" and op["op"] == "add":
                continue
            A.scn = dict(scn, users=[dict(u, ops=[op])])
            saved = A.res[u["name"]]
            A.res[u["name"]] = [dict(rs[j], B=rs[j]["B"])]
            if op["op"] == "add":
                A.res[u["name"]][0]["B"] = A.expect(A.scn["users"][0])[0]["B"]
            asyncw.judge_results(A, out)
            A.res[u["name"]] = saved
            A.scn = keep

    def shrink(self, scn):
        return asyncw.shrink(scn)


PROP = C06()
