"""C10 Failed, rejected or interrupted calls never leave a silently wrong model."""
import copy
import json

import numpy as np

from .. import engine, gen, kernel as K, refmodel as R
from . import base, persist as P


def mss_args(rng, cls, N, L, hp):
    """random arguments of train()"""
    args, kw = [], {}
    if cls:
        args.append(cls)
        if cls == "wc" and rng.random() < 0.5:
            kw["w"] = True
    if not hp:
        sel = rng.choice([None, None, "V", "CV", "LOO"])
        if sel == "CV" and L < 5:
            sel = "V"
        if sel:
            args.append(sel)
            if rng.random() < 0.4:
                args.append("OP")
                if rng.random() < 0.5:
                    kw["kmax"] = rng.randint(3 if sel != "CV" else 5, L) if L >= 5 else L
            if sel == "CV":
                kw["k"] = rng.choice([3, 4])
    rng.shuffle(args)
    if rng.random() < 0.3:
        kw["batch"] = rng.choice([1, 3, 4, 50])
    return args, kw


BAD = ["V-without-Xv", "V-and-CV", "C-and-WC", "k2", "no-k", "w-length", "X-cols", "T-cols", "rows", "str-X", "dims",
       "no-file", "Xv-cols", "batch-bad"]


class C10(base.Prop):
    id = "C10"
    rule = ("1 run = a simulated process with a trained or untrained ELM/HPELM makes a call (train with every kind of "
            "structure selection, on arrays or files, train_async, add_data, add_neurons, solve_corr) that is rejected "
            "for bad arguments, meets an I/O error, or gets MemoryError / KeyboardInterrupt / SystemExit at a random "
            "source line or operation, sometimes twice; then predicts, and trains again. A twin process makes the same "
            "call undisturbed with the same random numbers. Non-trivial: a fault fired or the call was rejected.")
    real = ["hpelm.elm, hpelm.hp_elm, hpelm.mss_*, hpelm.nnets, mrsr", "PyTables/HDF5 (core driver)", "numpy/scipy"]
    stub = ["delivery of interrupts and memory errors (at source lines)", "process scheduler", "disk image exchange",
            "multiprocessing", "clock"]
    assumptions = ["an interrupt arrives between two source lines",
                   "after structure selection has reduced the neurons, training again works on the remaining ones"]

    def gen(self, rng, i):
        d = gen.size(rng, 1, 3, [8, 20, 33])
        hp = rng.random() < 0.4
        cls = rng.choice([None, None, "c", "wc", "ml"])
        c = rng.randint(1, 2) if cls is None else rng.randint(2, 3)
        L = rng.choice([5, 6, 8, 9]) if rng.random() < 0.7 else rng.randint(1, 4)
        N = rng.choice([12, 15, 20])
        args, kw = mss_args(rng, cls, N, L, hp)
        call = rng.choice(["train"] * 6 + (["train_async", "solve_corr", "add_data", "train"] if hp else ["add_data"]) +
                          ["add_neurons"])
        s = {"kind": "HPELM" if hp else "ELM", "acc": rng.choice([None, None, "basic"]), "inputs": d, "outputs": c,
             "cls": cls, "norm": rng.choice([0.5, 1.0, 0.1]), "precision": rng.choice(["double", "double", "single"]),
             "batch": rng.choice([2, 3, 5, 100]), "neurons": gen.any_neurons(rng, d, L), "N": N,
             "call": call, "args": args, "kw": kw, "files": hp and (call == "train_async" or rng.random() < 0.6),
             "prior": rng.choice(["train", "train", "train", "mss" if not hp else "train", "none"]),
             "bad": None, "rs": rng.getrandbits(30), "again": rng.choice(["same", "same", "basic"]),
             "policy": gen.policy(rng, ["seq", "rw", "rtb"])}
        if rng.random() < 0.25 and call == "train":
            s["bad"] = rng.choice(BAD)
        return s

    def fault_plans(self, rng, scn, out):
        a, b = out.call_span
        if b is None or b <= a or scn["bad"]:
            return []
        plans = []
        pts = [p for p in base.io_points(out, ["u"]) if out_in(out, p, a, b)]
        for _ in range(6):
            r = rng.random()
            if pts and r < 0.2:
                plans.append(([base.io_fault(rng, pts, 0)], None))
                continue
            if r < 0.5:
                # in the last part of the call, where the model is changed
                n = rng.randint(max(a, b - rng.choice([8, 20, 40])), b)
            else:
                n = rng.randint(a, b)
            f = [{"task": "u", "at": ["step", n], "kind": rng.choice(["kbd", "mem", "mem", "sysexit"])}]
            if rng.random() < 0.2:
                f.append({"task": "u", "at": ["step", n + rng.randint(3, 60)], "kind": rng.choice(["kbd", "mem"])})
            plans.append((f, None))
        return plans

    # ------------------------------------------------------------------
    def data(self, scn, seed, n):
        rs = np.random.RandomState(seed % (2 ** 31))
        X = np.round(rs.randn(n, scn["inputs"]), 3)
        c = scn["outputs"]
        if scn["cls"] in ("c", "wc"):
            T = np.eye(c)[np.arange(n) % c]
            T = T[rs.permutation(n)]
        elif scn["cls"] == "ml":
            T = (rs.rand(n, c) > 0.5) * 1.0
        else:
            T = np.round(np.sin(X.sum(1, keepdims=True) * np.arange(1, c + 1)) + 0.1 * rs.randn(n, c), 3)
        return X, T

    def body(self, scn, run, out):
        X, T = self.data(scn, scn["rs"], scn["N"])
        X0, T0 = self.data(scn, scn["rs"] + 1, scn["N"])
        Xv, Tv = self.data(scn, scn["rs"] + 2, 10)
        Xp, _ = self.data(scn, scn["rs"] + 3, 6)
        ns = gen.np_neurons(scn["neurons"])
        prec = "float32" if scn["precision"] == "single" else None
        if scn["files"]:
            engine.write_h5(run.path("X.h5"), X, prec)
            engine.write_h5(run.path("T.h5"), T, prec)
        if scn["call"] == "solve_corr":
            dH, dT = R.corr(X, T, ns)
            L = dH.shape[0]
            engine.write_h5(run.path("HH.h5"), dH + np.eye(L) * scn["norm"], prec)
            engine.write_h5(run.path("HT.h5"), dT, prec)
        out.call_span = [0, None]
        w = np.array([1.0, 2.0, 0.5][:scn["outputs"]])
        box = {}

        def kwargs(bad):
            args, kw = list(scn["args"]), dict(scn["kw"])
            if kw.get("w"):
                kw["w"] = w
            if "V" in args:
                kw["Xv"], kw["Tv"] = Xv, Tv
            a, t = X, T
            if scn["files"]:
                a, t = run.path("X.h5"), run.path("T.h5")
            if bad == "V-without-Xv":
                args = [x for x in args if x not in ("CV", "LOO")]
                args = args + (["V"] if "V" not in args else [])
                kw.pop("Xv", None)
            elif bad == "V-and-CV":
                args = [x for x in args if x not in ("CV", "V", "LOO")] + ["V", "CV"]
            elif bad == "C-and-WC":
                args = [x for x in args if x not in ("c", "wc", "ml")] + ["c", "wc"]
            elif bad == "k2":
                args = [x for x in args if x not in ("V", "LOO", "CV")] + ["CV"]
                kw["k"] = 2
            elif bad == "no-k":
                args = [x for x in args if x not in ("V", "LOO", "CV")] + ["CV"]
                kw.pop("k", None)
            elif bad == "w-length":
                args = [x for x in args if x not in ("c", "wc", "ml")] + ["wc"]
                kw["w"] = np.ones(scn["outputs"] + 1)
            elif bad == "X-cols":
                a = np.hstack((X, X[:, :1]))
            elif bad == "T-cols":
                t = np.hstack((T, T[:, :1]))
            elif bad == "rows":
                t = T[:-1]
            elif bad == "str-X":
                a = X.astype("S8")
            elif bad == "dims":
                a = X[:, :, None]
            elif bad == "no-file":
                a = run.path("nothing.h5")
            elif bad == "Xv-cols":
                args = [x for x in args if x not in ("CV", "LOO")]
                args = args + (["V"] if "V" not in args else [])
                kw["Xv"], kw["Tv"] = np.hstack((Xv, Xv[:, :1])), Tv
            elif bad == "batch-bad":
                kw["batch"] = "many"
            return a, t, args, kw

        def make(env):
            kw = {"accelerator": "basic"} if scn["acc"] == "basic" else {}
            m = getattr(env.hpelm, scn["kind"])(scn["inputs"], scn["outputs"], classification=scn["cls"] or "",
                                               norm=scn["norm"], precision=scn["precision"], batch=scn["batch"], **kw)
            for f, W, B in ns:
                m.add_neurons(W.shape[1], f, W, B)
            if scn["prior"] != "none":
                np.random.seed(5)
                m.train(X0, T0, *([scn["cls"]] if scn["cls"] else []))
            if scn["prior"] == "mss":
                np.random.seed(5)
                m.train(X0, T0, "LOO", *([scn["cls"]] if scn["cls"] else []))
            return m

        def call(env, m, bad=None):
            np.random.seed(scn["rs"] % 1000)
            c = scn["call"]
            if c in ("train", "train_async"):
                a, t, args, kw = kwargs(bad)
                getattr(m, c)(a, t, *args, **kw)
            elif c == "add_data":
                if scn["files"]:
                    m.add_data(run.path("X.h5"), run.path("T.h5"))
                else:
                    m.add_data(X, T)
            elif c == "add_neurons":
                m.add_neurons(2, "tanh", np.ones((scn["inputs"], 2)) * 0.3, np.array([0.1, 0.2]))
            elif c == "solve_corr":
                m.solve_corr(run.path("HH.h5"), run.path("HT.h5"))

        def state(env, m):
            y, e = P.quiet(env, P.predictions, m, Xp)
            s, e2 = P.quiet(env, P.snap, m)
            return {"Y": y, "err": e, "snap": s, "snap_err": e2}

        def user(env):
            env.k.armed = False
            m = make(env)
            box["before"] = state(env, m)
            t = env.k.current
            out.call_span[0] = t.n
            try:
                env.k.armed = True
                call(env, m, scn["bad"])
                box["raised"] = None
            except K.SimKilled:
                raise
            except BaseException as e:
                box["raised"] = "%s: %s" % (type(e).__name__, e)
            finally:
                env.k.armed = False
            out.call_span[1] = t.n
            box["fired"] = any(f["_fired"] for f in env.k.faults)
            box["after"] = state(env, m)
            # again
            s = box["after"]["snap"]
            if s is None:
                return
            c = scn["call"]
            box["again_same"] = (c in ("train", "train_async") and scn["again"] == "same" and
                                 box["before"]["snap"] is not None and
                                 not P.diff(box["before"]["snap"], s, ("neurons",)))
            try:
                if box["again_same"]:
                    call(env, m)
                else:
                    m.batch = scn["batch"]
                    m.train(X, T, *([scn["cls"]] if scn["cls"] else []))
                box["again"] = state(env, m)
            except K.SimKilled:
                raise
            except BaseException as e:
                box["again_err"] = "%s: %s" % (type(e).__name__, e)

        def twin(env):
            m = make(env)
            try:
                call(env, m)
            except K.SimKilled:
                raise
            except BaseException as e:
                box["twin_err"] = "%s: %s" % (type(e).__name__, e)
            box["twin"] = state(env, m)

        u = run.main("u", user)
        run.main("twin", twin, after=lambda: u.ended)
        k = run.go()
        if k.stuck:
            out.bad("stuck", k.stuck)
            return
        for p in k.procs:
            if p.error and "/" not in p.name:
                out.bad("proc-error", "%s: %s" % (p.name, p.error))
        if out.violations or "after" not in box:
            return
        if box.get("twin_err"):
            # the call fails by itself: a failure like any other
            if scn["bad"] is None and box["raised"] is None:
                out.bad("twin", "the undisturbed call failed: %s" % box["twin_err"])
                return
        if scn["bad"] is None and box["raised"] and not box["fired"] and not box.get("twin_err"):
            out.bad("call-failed", "call failed without a fault: %s" % box["raised"])
            return
        if scn["bad"] and box["raised"]:
            out.nontrivial_history = True
            k.hash.update(json.dumps([scn["bad"], scn["rs"]]).encode())
        single = scn["precision"] == "single"
        tol = 1e-3 if single else 1e-8
        b, a, t = box["before"], box["after"], box["twin"]
        if box["raised"] is None and scn["bad"]:
            return                                  # not rejected, nothing to check
        if a["Y"] is not None:
            before = b["Y"] is not None and P.eq(a["Y"], b["Y"], 1e-5 if single else 1e-11)
            done = t["Y"] is not None and P.eq(a["Y"], t["Y"], tol)
            if not before and not done:
                out.bad("wrong-model", "after the call (%s) the model predicts %s; before %s; completed call %s" % (
                    box["raised"] or "returned", a["Y"].tolist(), b["Y"] if b["Y"] is None else b["Y"].tolist(),
                    t["Y"] if t["Y"] is None else t["Y"].tolist()))
                return
            if box["raised"] is None and not box["fired"] and not done:
                out.bad("wrong-model", "undisturbed call differs from its twin")
                return
            if box["raised"] is None and not done and scn["call"] in ("train", "train_async", "solve_corr"):
                out.bad("swallowed", "the call returned in spite of a fault, and the model predicts as before")
                return
        if box["again_same"] and box.get("twin_err"):
            return                                  # the call does not work undisturbed either
        if box.get("again_err"):
            out.bad("again", "training again after (%s) failed: %s" % (box["raised"], box["again_err"]))
            return
        g = box["again"]
        if g["Y"] is None:
            out.bad("again", "the model trained again does not predict: %s" % g["err"])
            return
        if box["again_same"]:
            if t["Y"] is None or not P.eq(g["Y"], t["Y"], tol):
                out.bad("again", "training again after (%s) gives predictions %s, expected %s" % (
                    box["raised"], g["Y"].tolist(), None if t["Y"] is None else t["Y"].tolist()))
            return
        # basic training on the neurons the model has now
        neu = [(f, W, B) for _, f, W, B in g["snap"]["neurons"]]
        orig = R.merge_neurons(ns + ([("tanh", np.ones((scn["inputs"], 2)) * 0.3, np.array([0.1, 0.2]))]
                                     if scn["call"] == "add_neurons" else []))
        have = {}
        for f, W, B in orig:
            for j in range(len(B)):
                have.setdefault(f, []).append(tuple(np.asarray(W)[:, j]) + (B[j],))
        for f, W, B in neu:
            for j in range(len(B)):
                col = tuple(W[:, j]) + (B[j],)
                ok = [h for h in have.get(f, []) if np.allclose(h, col, rtol=1e-5 if single else 0, atol=1e-6 if single else 0)]
                if not ok:
                    out.bad("neurons", "a neuron that was never added is in the model: %s %s" % (f, col))
                    return
                have[f].remove(ok[0])
        wc = None
        if scn["cls"] == "wc":
            wc = R.class_weights(T)
        dH, dT = R.corr(X, T, neu, wc)
        A = dH + np.eye(dH.shape[0]) * scn["norm"]
        if np.linalg.cond(A) < (300 if single else 1e7):
            ref = R.hidden(Xp, neu) @ np.linalg.solve(A, dT)
            if not P.eq(g["Y"], ref, 5e-3 if single else 1e-6):
                out.bad("again", "basic training after (%s) gives predictions %s, expected %s" % (
                    box["raised"], g["Y"].tolist(), ref.tolist()))

    def shrink(self, scn):
        for key, val in (("precision", "double"), ("acc", None), ("prior", "none"), ("files", False), ("again", "basic")):
            if scn[key] != val and not (key == "files" and scn["call"] == "train_async"):
                s = copy.deepcopy(scn)
                s[key] = val
                yield s


def out_in(out, p, a, b):
    t, kind, lab, nth = p
    for e in out.events:
        if e[0] == t and e[2] == kind and e[3] == lab and e[4] == nth:
            return a <= e[1] <= b
    return False


PROP = C10()
