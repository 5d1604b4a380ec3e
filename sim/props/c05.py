"""C05 Asynchronous prediction equals synchronous prediction and is complete."""
import numpy as np

from . import asyncw, c04


class C05(c04.C04):
    id = "C05"
    rule = ("1 run = 1-2 simulated user processes, each with a sequence of 1-3 predict_async calls (and training calls "
            "between them) over row ranges and batch sizes, into new, existing or junk output files; reader, trainer and "
            "writer scheduled by a seeded random walk/PCT/run-to-block, pipes large or full after one message, helpers "
            "stalled; at each return the output file is read from the simulated disk and by a separate simulated "
            "process, and compared with the reference model and a synchronous twin run.")
    kinds = ["predict", "predict", "predict", "add", "train"]

    def gen(self, rng, i):
        scn = asyncw.gen_scn(rng, self.kinds)
        for u in scn["users"]:
            if not any(op["op"] == "predict" for op in u["ops"]):
                a, n = asyncw.gen_range(rng, scn["N"])
                u["ops"].append({"op": "predict", "istart": a, "icount": n, "old": None})
        if rng.random() < 0.06:
            rng.choice(scn["users"])["ops"].append(asyncw.gen_empty(rng, ["predict", "predict", "add"], scn["N"]))
        return scn

    def body(self, scn, run, out):
        A = asyncw.Async(scn, run)
        A.setup()
        read = {}

        def reader(env, name, j):
            import tables
            try:
                h = tables.open_file(env.path("Y-%s-%d.h5" % (name, j)), "r")
                for node in h.walk_nodes():
                    pass
                read[name, j] = np.array(node[:], float)
                h.close()
            except Exception as e:
                read[name, j] = repr(e)

        for u in scn["users"]:
            for j, op in enumerate(u["ops"]):
                if op["op"] == "predict" and not op.get("empty"):
                    n = u["name"]
                    run.main("r-%s-%d" % (n, j), lambda env, n=n, j=j: reader(env, n, j),
                             after=lambda n=n, j=j: (len(A.res.get(n, [])) > j and A.res[n][j]["status"] != "running")
                             or A.procs[n].ended)
        k = run.go()
        if k.stuck:
            out.bad("stuck", k.stuck)
            return
        for p in k.procs:
            if p.error:
                out.bad("proc-error", "%s: %s" % (p.name, p.error))
        for x in A.left:
            out.bad("helper-left", x)
        asyncw.judge_results(A, out)
        if out.violations:
            return
        for u in scn["users"]:
            for j, op in enumerate(u["ops"]):
                if op["op"] == "predict" and not op.get("empty"):
                    Y = read.get((u["name"], j))
                    if not isinstance(Y, np.ndarray):
                        out.bad("reader", "another process opening the output of %s op %d: %s" % (u["name"], j, Y))
                    elif not asyncw.same(Y, A.res[u["name"]][j]["Y"], True, False):
                        out.bad("reader", "another process reads %s" % Y.tolist())
        if not out.violations:
            self.twin(A, scn, out)


PROP = C05()
