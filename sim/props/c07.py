"""C07 A saved model loads back as the same model, or saving fails loudly."""
import copy

import numpy as np

from .. import gen, kernel as K
from . import base, persist as P


class C07(base.Prop):
    id = "C07"
    rule = ("1 run = a simulated process saves 1-3 random models (all neuron types, classification modes, precisions, "
            "solvers, trained or not) to files and to bytes, others load them into random ELM/HPELM objects, compare "
            "and train further; storage faults (ENOSPC, EIO, EACCES, EMFILE, short writes) at file operations chosen "
            "from the fault-free run, buffer sizes from 16 bytes up. Non-trivial: a fault fired, or the schedule "
            "deviated.")
    real = ["hpelm.elm save/load/dumps/loads, hpelm.hp_elm, hpelm.nnets", "pickle, io buffering", "numpy/scipy"]
    stub = ["raw file reads/writes/close", "process scheduler", "clock"]
    assumptions = ["a write that reports success is readable afterwards", "short writes are legal"]

    def gen(self, rng, i):
        n = rng.choice([1, 1, 2, 3])
        jobs = []
        for j in range(n):
            m = P.gen_model(rng)
            jobs.append({"model": m, "via": rng.choice(["file", "file", "file", "bytes"]),
                         "name": "m%d.pkl" % (0 if rng.random() < 0.4 else j),
                         # the receiver has loaded another model under this name before
                         "stale": P.gen_model(rng) if rng.random() < 0.3 else None,
                         "recv": [P.gen_model(rng, rng.choice([m["inputs"], None])) for _ in range(rng.choice([1, 2]))]})
        for j in range(1, n):          # the same object, changed since the last save
            if rng.random() < 0.4:
                jobs[j]["model"] = copy.deepcopy(jobs[j - 1]["model"])
                jobs[j]["model"]["change"] = rng.choice(["B", "train", "neurons", "prune", "none"])
                jobs[j]["cont"] = True
        return {"jobs": jobs, "policy": gen.policy(rng),
                "config": {"bufsize": rng.choice([None, None, 16, 64, 300])}}

    def fault_plans(self, rng, scn, out):
        pts = base.io_points(out, ["saver"] + [t for t in out.task_n if t.startswith("l")])
        w = [p for p in pts if p[1] == "fwrite"]
        plans = []
        if not pts:
            return plans
        for _ in range(5):
            faults = []
            for _ in range(rng.choice([1, 1, 1, 2])):
                if w and rng.random() < 0.25:
                    t, kind, lab, nth = rng.choice(w)
                    faults.append({"task": t, "at": ["op", kind, lab, nth], "kind": "short",
                                   "frac": rng.choice([0.1, 0.5, 0.9]), "sticky": rng.random() < 0.5})
                else:
                    faults.append(base.io_fault(rng, pts))
            plans.append((faults, None if rng.random() < 0.5 else gen.policy(rng)))
        return plans

    def body(self, scn, run, out):
        saved = []                       # one dict per finished save
        state = {"next": 0}

        def saver(env):
            for j, job in enumerate(scn["jobs"]):
                if job.get("cont") and j:
                    m = saved[-1]["obj"]
                    self.change(env, m, job["model"])
                else:
                    m = P.make(env, job["model"])
                s, err = P.quiet(env, P.snap, m)
                if err:
                    out.bad("snap", err)
                    return
                r = {"job": j, "snap": s, "ev0": len(env.k.events), "obj": m}
                try:
                    if job["via"] == "file":
                        m.save(env.path(job["name"]))
                    else:
                        r["bytes"] = m.dumps()
                    r["status"] = "ok"
                except K.SimKilled:
                    raise
                except Exception as e:
                    r["status"] = "exc:%s: %s" % (type(e).__name__, e)
                r["ev1"] = len(env.k.events)
                s2, err = P.quiet(env, P.snap, m)
                if err or P.diff(s, s2):
                    out.bad("save-changes", "saving changed the model: %s" % (err or P.diff(s, s2)))
                if r["status"] != "ok" and not base.fault_hits(env.k, "saver", r["ev0"], r["ev1"]):
                    out.bad("save-failed", "save failed without an error: %s" % r["status"])
                saved.append(r)
                # loaders of this job go before the next save
                env.k.block(lambda: all(p.ended for p in loaders[j]), None, "loaders")

        def loader(env, j, n):
            job = scn["jobs"][j]
            r = saved[j]
            if r["status"] != "ok":
                return
            o = P.make(env, job["recv"][n])
            name, data = job["name"], r.get("bytes")
            if job.get("stale"):
                def stale():
                    old = P.make(env, job["stale"])
                    if job["via"] != "file":
                        o.loads(old.dumps())
                        return name
                    own = "own-%d-%d.pkl" % (j, n)
                    with open(env.path(name), "rb") as f:
                        now = f.read()
                    old.save(env.path(own))
                    o.load(env.path(own))
                    with open(env.path(own), "wb") as f:
                        f.write(now)
                    return own
                name, err = P.quiet(env, stale)
                if err:
                    out.bad("load-failed", "job %d: load failed without an error: %s" % (j, err))
                    return
            before, err = P.quiet(env, P.snap, o)
            ev0 = len(env.k.events)
            try:
                if job["via"] == "file":
                    o.load(env.path(name))
                else:
                    o.loads(r["bytes"])
            except K.SimKilled:
                raise
            except Exception as e:
                if not base.fault_hits(env.k, env.proc.name, ev0, len(env.k.events)):
                    out.bad("load-failed", "job %d: load failed without an error: %s: %s" % (j, type(e).__name__, e))
                return
            self.compare(env, job, r, o, before, out, n)

        loaders = {}
        for j, job in enumerate(scn["jobs"]):
            loaders[j] = [run.main("l%d-%d" % (j, n), lambda env, j=j, n=n: loader(env, j, n),
                                   after=lambda j=j: len(saved) > j or sv.ended) for n in range(len(job["recv"]))]
        sv = run.main("saver", saver)
        k = run.go()
        if k.stuck:
            out.bad("stuck", k.stuck)
        for p in k.procs:
            if p.error:
                out.bad("proc-error", "%s: %s" % (p.name, p.error))

    @staticmethod
    def change(env, m, spec):
        """the user goes on with a model after saving it"""
        n, rs = m.nnet, np.random.RandomState(spec["data"] % 997)
        X, T = P.data_of(spec, spec["data"] + 1)
        what = spec["change"]
        if what == "neurons":
            m.add_neurons(2, "tanh", rs.randn(n.inputs, 2), rs.randn(2))
            n.set_B(rs.randn(n.L, n.outputs))
        elif what == "prune" and (n.L or 0) > 1:
            n._prune([n.L - 1])
            n.set_B(rs.randn(n.L, n.outputs))
        elif what == "train" and n.neurons and n.norm:
            P.further(m, X, T)
        elif what == "B" and n.B is not None:
            n.set_B(rs.randn(n.L, n.outputs))

    def compare(self, env, job, r, o, before, out, n):
        s, err = P.quiet(env, P.snap, o)
        if err:
            out.bad("loaded-state", "loaded model is unusable: %s" % err)
            return
        single = "single" in (job["model"]["precision"], job["recv"][n]["precision"])
        tol = 1e-6 if single else 0.0
        d = P.diff(r["snap"], s, P.MODEL_KEYS, tol)
        if d:
            out.bad("loaded-differs", "loaded model differs in %s: saved %s, loaded %s" % (
                d, [str(r["snap"][x]) for x in d], [str(s[x]) for x in d]))
            return
        if (s["batch"], s["precision"]) != (before["batch"], before["precision"]):
            out.bad("settings", "load changed batch or precision of the receiver")
        if not r["snap"]["neurons"]:
            return
        X, T = P.data_of(job["model"], r["snap"]["inputs"] * 31 + 5, 7)
        a = r["obj"]
        t2 = 2e-3 if single else 1e-9
        if r["snap"]["B"] is not None:
            scale = max(1.0, float(np.abs(r["snap"]["B"]).max()) if r["snap"]["B"].size else 1.0)
            if scale < 1e4 or not single:
                y1, e1 = P.quiet(env, P.predictions, a, X)
                y2, e2 = P.quiet(env, P.predictions, o, X)
                if e1 or e2:
                    if bool(e1) != bool(e2):
                        out.bad("prediction", "original: %s, loaded: %s" % (e1, e2))
                elif float(np.abs(y1 - y2).max()) > t2 * scale * 10:
                    out.bad("prediction", "predictions of the loaded model differ by %g" % np.abs(y1 - y2).max())
        else:
            _, e2 = P.quiet(env, P.predictions, o, X)
            if e2 is None:
                out.bad("prediction", "a model saved without weights predicts after loading")
        if r["snap"]["norm"] >= 1e-3:
            b1, e1 = P.quiet(env, P.further, a, X, T)
            b2, e2 = P.quiet(env, P.further, o, X, T)
            t3 = 1e-7 if not single else 0.05 if r["snap"]["norm"] >= 0.1 else None
            if bool(e1) != bool(e2):
                out.bad("further", "training further: original %s, loaded %s" % (e1 or "works", e2 or "works"))
            elif r["snap"]["wc"] is not None and r["snap"]["wc"].max() > 1e4 * r["snap"]["norm"]:
                pass                   # badly conditioned
            elif not e1 and t3 and not P.eq(b1, b2, t3):
                out.bad("further", "trained further, weights are %s and those of the original %s" % (b2.tolist(), b1.tolist()))
            # leave the original as it was saved, for the next loader
            P.quiet(env, a.nnet.reset)
            a.nnet.B = None if r["snap"]["B"] is None else np.array(r["snap"]["B"], dtype=a.precision)
            a.wc = None if r["snap"]["wc"] is None else np.array(r["snap"]["wc"])

    def shrink(self, scn):
        for i in range(len(scn["jobs"])):
            if len(scn["jobs"]) > 1:
                s = copy.deepcopy(scn)
                s["jobs"].pop(i)
                yield s
            job = scn["jobs"][i]
            if len(job["recv"]) > 1:
                for n in range(len(job["recv"])):
                    s = copy.deepcopy(scn)
                    s["jobs"][i]["recv"].pop(n)
                    yield s
            for m in P.shrink_model(job["model"]):
                s = copy.deepcopy(scn)
                s["jobs"][i]["model"] = m
                yield s
            for n in range(len(job["recv"])):
                for m in P.shrink_model(job["recv"][n]):
                    s = copy.deepcopy(scn)
                    s["jobs"][i]["recv"][n] = m
                    yield s


PROP = C07()
