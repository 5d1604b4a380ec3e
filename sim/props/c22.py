"""C22 A call leaves nothing open or running behind when it returns or fails."""
import copy
import json
import os

import numpy as np
import tables

from .. import engine, gen, kernel as K
from . import base, persist as P


class C22(base.Prop):
    id = "C22"
    rule = ("1 run = one simulated process makes 2-7 calls of any kind that touches files (training, accumulation files, prediction, "
            "projection, errors, confusion, selection, asynchronous versions, models, conversion, normalisation) with its models, "
            "data given by name or as arrays, good or bad (missing, other shape, garbage); errors of any storage operation, failing "
            "helpers and spawns. After each call, returned or failed, the process must hold no more HDF5 files, plain files, file "
            "locks, threads and helper processes than before, and every file must open for writing in the same process and in "
            "another one. Non-trivial: a history of calls.")
    real = ["hpelm.hp_elm, hpelm.elm, hpelm.nnets, hpelm.modules", "PyTables/HDF5 (core driver)", "numpy/scipy", "fasteners"]
    stub = ["disk image exchange and HDF5 file locks", "multiprocessing queues, pipes and processes", "process scheduler", "clock"]
    assumptions = ["PyTables' rule that a file open for reading cannot be opened for writing in the same process"]

    def gen(self, rng, i):
        cls = rng.choice([None, None, "c", "wc", "ml"])
        d, c, L = rng.randint(1, 3), rng.randint(2, 3), rng.randint(3, 5)
        s = {"inputs": d, "outputs": c, "L": L, "cls": cls, "w": rng.random() < 0.3, "batch": rng.choice([2, 3, 5, 20]),
             "acc": rng.choice([None, None, "basic"]), "precision": rng.choice(["double", "double", "single"]),
             "rs": rng.getrandbits(30), "N": rng.randint(4, 14), "ops": [],
             "policy": gen.policy(rng), "config": {"flock": rng.random() < 0.7, "pipe_cap": rng.choice([65536, 1])}}
        ops = ["add", "add", "add", "add_async", "train", "train_async", "predict", "predict", "predict_async", "project", "error",
               "error", "valid", "valid", "solve", "save", "load", "make", "text", "normalize"] + (["confusion"] * 2 if cls else [])
        for _ in range(rng.randint(2, 7)):
            o = {"op": rng.choice(ops), "m": rng.choice([0, 0, 1])}
            if o["op"] in ("add", "add_async"):
                o["files"] = rng.choice([0, 1])
            if rng.random() < 0.3:
                o["bad"] = rng.choice(["missing", "shape", "shape", "garbage", "empty"])
                o["where"] = rng.choice(["X", "other", "HH", "HT"])
            if not o["op"].endswith("async"):
                o["src"] = rng.choice(["file", "file", "array"])
                o["src2"] = rng.choice(["file", "file", "array"])
            if o["op"] in ("predict", "project"):
                o["dst"] = rng.choice(["file", "file", "array", "none"])
            if rng.random() < 0.3:
                o["istart"] = rng.choice([1, 2, 3, 40])
            s["ops"].append(o)
        return s

    def fault_plans(self, rng, scn, out):
        tasks = [t for t in out.task_n if t == "u" or t.startswith("u/")]
        helpers = [t for t in tasks if "/" in t and out.task_n[t] > 0]
        read = ["%s.h5" % q for q in ("X", "T", "P", "vHH", "vHT", "wide", "garbage", "empty")]
        pts = [x for x in base.io_points(out, tasks) if not (x[1] == "h5close" and x[2] in read)]    # nothing to write then
        plans = []
        for _ in range(4):
            faults = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                if helpers and rng.random() < 0.3:
                    (t, at), = base.pick_steps(rng, out, helpers, 1)
                    faults.append({"task": t, "at": ["step", at], "kind": rng.choice(["kill", "mem", "sysexit", "stall"]), "dt": 20.0})
                elif pts:
                    faults.append(base.io_fault(rng, pts, 0.2))
            if faults:
                plans.append((faults, None if rng.random() < 0.5 else gen.policy(rng)))
        return plans

    def body(self, scn, run, out):
        rs = np.random.RandomState(scn["rs"] % (2 ** 31))
        N, d, c, L = scn["N"], scn["inputs"], scn["outputs"], scn["L"]
        dt = "float32" if scn["precision"] == "single" else "float64"
        X = rs.randint(-3, 4, (N, d)) * 1.0
        T = np.eye(c)[np.arange(N) % c] if scn["cls"] else rs.randint(-3, 4, (N, c)) * 1.0
        A = {"X": X, "T": T, "P": T * 0.5}
        names = []
        for q, M in list(A.items()) + [("vHH", np.eye(L) * 50.0), ("vHT", rs.randn(L, c)), ("Z", X), ("wide", rs.randn(N, 9))]:
            engine.write_h5(run.path(q + ".h5"), M, dt, attrs=True)
            names.append(q + ".h5")
        with open(run.path("garbage.h5"), "wb") as f:
            f.write(b"not a file" * 50)
        h = tables.File("empty-img", "w", driver="H5FD_CORE", driver_core_backing_store=0)
        with open(run.path("empty.h5"), "wb") as f:
            f.write(h.get_file_image())
        h.close()
        with open(run.path("X.txt"), "w") as f:
            for r in X.astype(int).tolist():
                f.write(" ".join(map(str, r)) + "\n")
        W, B, Bw = rs.randn(d, L), rs.randn(L), rs.randn(L, c)
        box = {"log": []}
        k = run.k

        def model(env):
            kw = {"accelerator": "basic"} if scn["acc"] == "basic" else {}
            w = [1.0 + i % 3 for i in range(c)] if scn["cls"] == "wc" and scn["w"] else None
            m = env.hpelm.HPELM(d, c, classification=scn["cls"] or "", w=w, batch=scn["batch"], norm=1.0,
                                precision=scn["precision"], **kw)
            m.add_neurons(L, "tanh", W, B)
            m.nnet.set_B(Bw.copy())
            if scn["cls"] == "wc":
                m.wc = np.ones(c)
            return m

        def call(env, m, o):
            op = o["op"]
            bad = {None: None, "missing": "none.h5", "shape": "wide.h5"}.get(o.get("bad"), "%s.h5" % o.get("bad"))

            def src(q, key="src"):
                if o.get(key, "file") == "file":
                    return env.path(bad if bad and (q == "X") == (o.get("where") == "X") else q + ".h5")
                return A[q].copy()
            kw = {"istart": o["istart"]} if o.get("istart") else {}
            mods = env.proc.modules["hpelm.modules"]
            if op in ("add", "add_async"):
                if o["files"]:
                    kw.update(fHH=env.path(bad if bad and o["where"] == "HH" else "HH.h5"),
                              fHT=env.path(bad if bad and o["where"] == "HT" else "HT.h5"))
                (m.add_data if op == "add" else m.add_data_async)(src("X"), src("T", "src2"), **kw)
            elif op in ("train", "train_async"):
                getattr(m, op)(src("X"), src("T", "src2"), *([scn["cls"]] if scn["cls"] else []), **kw)
            elif op == "predict_async":
                m.predict_async(src("X"), env.path("Y.h5"), **kw)
            elif op in ("predict", "project"):
                wd = c if op == "predict" else L
                dst = {"file": env.path("Y.h5"), "array": np.zeros((N, wd)), "none": None}[o["dst"]]
                getattr(m, op)(src("X"), dst, **kw)
            elif op == "error":
                m.error(src("T"), src("P", "src2"), **kw)
            elif op == "confusion":
                m.confusion(src("T"), src("P", "src2"))
            elif op == "valid":
                m.validation_corr(env.path("vHH.h5"), env.path(bad or "vHT.h5"), src("X"), src("T", "src2"), steps=2)
            elif op == "solve":
                m.solve_corr(env.path("vHH.h5"), env.path(bad or "vHT.h5"))
            elif op == "save":
                m.save(env.path("model"))
            elif op == "load":
                m.load(env.path("model") if not bad else env.path(bad))
            elif op == "make":
                mods.make_hdf5(A["X"], env.path("XX.h5"))
            elif op == "text":
                mods.make_hdf5(env.path("X.txt" if not bad else bad), env.path("XX.h5"))
            elif op == "normalize":
                mods.normalize_hdf5(env.path(bad or "Z.h5"), batch=scn["batch"])

        def held(p):
            r = ["HDF5 file %s (%s)" % (os.path.basename(x[1]), x[2]) for x in p.h5]
            r += ["file %s" % os.path.basename(str(getattr(f, "name", f))) for f in p.files]
            r += ["process %s" % q.name for q in k.procs if q.parent is p and not q.ended]
            r += ["thread %s" % t.name for t in p.tasks if t is not k.current and t.state != K.DONE]
            for ino, o in k.fcntl_locks.items():
                if p in o:
                    r.append("lock %s" % ino)
            return sorted(r)

        def touch(path):
            h = tables.open_file(path, "a")
            h.close()

        def user(env):
            k.armed = False
            ms = [model(env), model(env)]
            ms[0].save(env.path("model"))
            before = held(env.proc)
            for i, o in enumerate(scn["ops"]):
                k.armed = True
                err = None
                try:
                    call(env, ms[o["m"]], o)
                except K.SimKilled:
                    raise
                except Exception as e:
                    err = "%s: %s" % (type(e).__name__, str(e)[:100])
                finally:
                    k.armed = False
                box["log"].append([i, err and err.split(":")[0]])
                what = "%s %s" % (json.dumps(o), "failed (%s)" % err if err else "returned")
                now = held(env.proc)
                if now != before:
                    out.bad("left", "%s and left %s" % (what, [x for x in now if x not in before] or now))
                    return
                for q in ("X", "T", "P", "vHH", "vHT", "Z", "Y", "HH", "HT", "XX"):
                    p = env.path(q + ".h5")
                    if os.path.isfile(p) and os.path.getsize(p) > 96:
                        try:
                            e = touch(p)
                        except K.SimKilled:
                            raise
                        except Exception as x:
                            e = "%s: %s" % (type(x).__name__, x)
                        if e and not P.quiet(env, engine.read_h5, p)[0][1]:
                            out.bad("locked", "%s; now %s cannot be opened for writing: %s" % (what, q, e))
                            return

        run.main("u", user)
        run.go()
        if k.stuck:
            out.bad("stuck", k.stuck)
        for p in k.procs:
            if p.error and "/" not in p.name:
                out.bad("proc-error", "%s: %s" % (p.name, p.error))
        out.nontrivial_history = True
        k.hash.update(json.dumps([scn["ops"], scn["batch"], N, box["log"]]).encode())

    def shrink(self, scn):
        for i in range(len(scn["ops"])):
            if len(scn["ops"]) > 1:
                s = copy.deepcopy(scn)
                del s["ops"][i]
                yield s
        for key, val in (("precision", "double"), ("acc", None), ("cls", None)):
            if scn[key] != val and not (key == "cls" and any(o["op"] == "confusion" for o in scn["ops"])):
                s = copy.deepcopy(scn)
                s[key] = val
                yield s


PROP = C22()
