"""C14 Validation-based neuron selection is exact and atomic under failures."""
import copy
import json

import numpy as np

from .. import engine, gen, kernel as K, refmodel as R
from . import base, persist as P
from .c11 import errors
from .c13 import confusion


class C14(base.Prop):
    id = "C14"
    rule = ("1 run = one simulated process has an HPELM (untrained, or with earlier weights) and accumulation files (written by "
            "the reference, or accumulated by this or another process in pieces), and selects the number of neurons with "
            "validation_corr: steps as a count, list or vector, data in files or arrays, any batch size and classification. Faults: "
            "open / read errors, KeyboardInterrupt and MemoryError at any line, most of them near the end; then it predicts "
            "and selects again. Non-trivial: distinct scenario or fired fault.")
    real = ["hpelm.hp_elm, hpelm.nnets", "PyTables/HDF5 (core driver)", "numpy/scipy"]
    stub = ["disk image exchange and HDF5 file locks", "disk errors", "process scheduler", "clock", "delivery of interrupts"]
    assumptions = ["at least 3 neurons when steps is a count (the code starts from 3)"]

    def gen(self, rng, i):
        d = gen.size(rng, 1, 3, [8, 20, 33])
        cls = rng.choice(["", "", "c", "wc", "ml"])
        c = gen.size(rng, 2, 3, [5]) if cls else gen.size(rng, 1, 2, [5, 12])
        L = rng.choice([3, 4, 5, 8, 12])
        s = {"inputs": d, "outputs": c, "cls": cls, "w": ([1.0, 2.5, 0.25] * 4)[:c] if cls == "wc" else None,
             "acc": rng.choice([None, None, "basic"]), "precision": rng.choice(["double", "double", "double", "single"]),
             "batch": rng.choice([1, 2, 3, 4, 7, 100]), "norm": rng.choice([0.3, 1.0, 0.1]),
             "neurons": gen.any_neurons(rng, d, L), "L": L, "N": rng.choice([9, 14]), "Nv": rng.choice([1, 2, 5, 9, 11]),
             "rs": rng.getrandbits(30), "prior": rng.choice(["none", "set", "set"]), "src": rng.choice(["file", "array"]),
             "acc_by": rng.choice(["ref", "ref", "self", "other"]), "config": {"flock": rng.random() < 0.7},
             "policy": gen.policy(rng, ["seq", "rtb", "rw"])}
        if rng.random() < 0.02:                    # around the default batch size
            s["Nv"], s["batch"] = rng.choice(gen.BIG), rng.choice([1000, 1000, 700])
        s["lay"] = [rng.choice(gen.ORDERS + ["ro", "one"]) for _ in range(2)]
        r = rng.random()
        if r < 0.4:
            s["steps"] = rng.choice([None, 1, 2, 3, 5, 10, 40])
        else:
            v = [rng.randint(1, L) for _ in range(rng.randint(1, 5))]
            s["steps"] = v
            s["vec"] = rng.random() < 0.5
        return s

    def fault_plans(self, rng, scn, out):
        a, b = out.call_span
        if b is None or b <= a:
            return []
        plans = []
        pts = [p for p in base.io_points(out, ["u"])]
        for _ in range(5):
            r = rng.random()
            if r < 0.4 and pts:
                plans.append(([base.io_fault(rng, pts, 0.1)], None))
                continue
            n = rng.randint(max(a, b - 25), b) if r < 0.8 else rng.randint(a, b)
            plans.append(([{"task": "u", "at": ["step", n], "kind": rng.choice(["kbd", "mem"])}], None))
        return plans

    def body(self, scn, run, out):
        rs = np.random.RandomState(scn["rs"] % (2 ** 31))
        d, c, L = scn["inputs"], scn["outputs"], scn["L"]
        ns = gen.np_neurons(scn["neurons"])
        neu = R.merge_neurons(ns)
        single = scn["precision"] == "single"

        def data(n):
            X = np.round(rs.randn(n, d), 3)
            if scn["cls"] in ("c", "wc"):
                lab = rs.randint(0, c, n)
                if n >= c and rs.rand() < 0.7:
                    lab[:c] = np.arange(c)
                T = np.eye(c)[lab]
            elif scn["cls"] == "ml":
                T = (np.sin(X.sum(1, keepdims=True) * np.arange(1, c + 1)) + 0.4 * rs.randn(n, c) > 0) * 1.0
            else:
                T = np.round(np.sin(X.sum(1, keepdims=True) * np.arange(1, c + 1)) + 0.1 * rs.randn(n, c), 3)
            return X, T
        X, T = data(scn["N"])
        Xv, Tv = data(scn["Nv"])
        Xp, _ = data(6)
        B0 = np.round(rs.randn(L, c), 3)
        w = scn["w"]
        dH, dT = R.corr(X, T, ns, w)
        HH = dH + np.eye(L) * scn["norm"]
        prec = np.float32 if single else np.float64
        if scn["acc_by"] == "ref":
            engine.write_h5(run.path("HH.h5"), HH, prec)
            engine.write_h5(run.path("HT.h5"), dT, prec)
        engine.write_h5(run.path("Xv.h5"), Xv)
        engine.write_h5(run.path("Tv.h5"), Tv)
        out.call_span = [0, None]
        box = {"calls": []}

        def model(env):
            kw = {"accelerator": "basic"} if scn["acc"] == "basic" else {}
            m = env.hpelm.HPELM(d, c, classification=scn["cls"], w=w, batch=scn["batch"], precision=scn["precision"],
                                norm=scn["norm"], **kw)
            for f, W, B in ns:
                m.add_neurons(W.shape[1], f, W, B)
            return m

        def accumulate(env, m):
            h = scn["N"] // 2
            for a, b in ((0, h), (h, scn["N"])):
                m.add_data(X[a:b], T[a:b], fHH=run.path("HH.h5"), fHT=run.path("HT.h5"))

        def select(env, m):
            a, t = (run.path("Xv.h5"), run.path("Tv.h5")) if scn["src"] == "file" else (
                gen.lay(Xv, scn["lay"][0]), gen.lay(Tv, scn["lay"][1]))
            kw = {}
            if scn["steps"] is not None:
                kw["steps"] = np.array(scn["steps"]) if scn.get("vec") else scn["steps"]
            return m.validation_corr(run.path("HH.h5"), run.path("HT.h5"), a, t, **kw)

        def predict(env, m):
            return P.quiet(env, P.predictions, m, Xp)

        def other(env):
            accumulate(env, model(env))

        def user(env):
            k = env.k
            k.armed = False
            m = model(env)
            if scn["acc_by"] == "self":
                accumulate(env, m)
            if scn["prior"] == "set":
                m.nnet.set_B(B0.copy())
            box["before"] = predict(env, m)[0]
            out.call_span[0] = k.current.n
            try:
                k.armed = True
                r = select(env, m)
                box["calls"].append(("ok", r))
            except K.SimKilled:
                raise
            except BaseException as e:
                box["calls"].append(("err", "%s: %s" % (type(e).__name__, e)))
            finally:
                k.armed = False
            out.call_span[1] = k.current.n
            box["fired"] = any(f["_fired"] for f in k.faults)
            box["after"] = predict(env, m)
            box["snap"] = P.quiet(env, P.snap, m)[0]
            if box["calls"][0][0] == "err" and box["snap"] is not None and \
                    sum(x[0] for x in box["snap"]["neurons"]) == L:
                try:
                    box["again"] = ("ok", select(env, m))
                except K.SimKilled:
                    raise
                except Exception as e:
                    box["again"] = ("err", "%s: %s" % (type(e).__name__, e))
                box["after2"] = predict(env, m)
                box["snap2"] = P.quiet(env, P.snap, m)[0]

        if scn["acc_by"] == "other":
            o = run.main("other", other)
            run.main("u", user, after=lambda: o.ended)
        else:
            run.main("u", user)
        k = run.go()
        if k.stuck:
            out.bad("stuck", k.stuck)
        for p in k.procs:
            if p.error:
                out.bad("proc-error", "%s: %s" % (p.name, p.error))
        out.nontrivial_history = True
        k.hash.update(json.dumps([scn["steps"], scn["batch"], scn["Nv"], scn["cls"], scn["neurons"]]).encode())
        if out.violations:
            return
        tol = 5e-3 if single else 1e-7
        Hv, Hp = R.hidden(Xv, ns), R.hidden(Xp, ns)
        well = np.linalg.cond(HH) < (200 if single else 1e7)
        sols = {l: np.linalg.solve(HH[:l, :l], dT[:l]) for l in range(1, L + 1)}
        sel = [Hp[:, :l] @ sols[l] for l in range(1, L + 1)]

        def judge_ok(r, y, snap, what):
            try:
                Ls, errs, confs = r
                Ls = [int(l) for l in Ls]
                errs = np.asarray(errs, float)
            except Exception:
                return "returned %r" % (r,)
            if any(l < 1 or l > L for l in Ls) or Ls != sorted(set(Ls)) or errs.shape != (len(Ls),):
                return "numbers of neurons %s, errors %s (model has %d neurons)" % (Ls, errs, L)
            st = scn["steps"] if scn["steps"] is not None else 10
            if isinstance(st, list):
                if Ls != sorted(set(st)):
                    return "tried %s neurons instead of %s" % (Ls, sorted(set(st)))
            elif Ls[0] != 3 or (st > 1 and Ls[-1] != L) or len(Ls) > st:
                return "tried %s neurons, %d steps from 3 to %d were requested" % (Ls, st, L)
            if len(confs) != (len(Ls) if scn["cls"] else 0):
                return "%d confusion matrices for %d tries" % (len(confs), len(Ls))
            if not well:
                return None
            best = [(e, l) for e, l in zip(errs, Ls)]
            for i, l in enumerate(Ls):
                Y = Hv[:, :l] @ sols[l]
                e = errors(Tv, Y, scn["cls"] or None, w)
                ties = self.ties(scn, Y, 1e-2 if single else 1e-6)
                if ties:
                    continue
                if abs(errs[i] - e) > tol * max(1.0, abs(e)):
                    return "error with %d neurons is %.12g, expected %.12g" % (l, errs[i], e)
                if scn["cls"] and not np.array_equal(np.asarray(confs[i], float), confusion(Tv, Y, scn["cls"])):
                    return "confusion with %d neurons is %s, expected %s" % (
                        l, np.asarray(confs[i]).tolist(), confusion(Tv, Y, scn["cls"]).tolist())
            m = min(e for e, l in best)
            good = [l for e, l in best if e <= m + 1e-12]
            if snap["L"] not in good:
                return "%d neurons were selected, the best are %s (errors %s)" % (snap["L"], good, list(zip(Ls, errs)))
            have = [(f, W, B) for _, f, W, B in snap["neurons"]]
            if not P.eq(R.hidden(Xp, have), Hp[:, :snap["L"]], 1e-4 if single else 1e-10):
                return "the selected neurons are not the first %d" % snap["L"]
            if y[0] is None:
                return "selected model does not predict: %s" % y[1]
            if not P.eq(y[0], sel[snap["L"] - 1], tol):
                return "selected model predicts %s, expected %s" % (y[0].tolist(), sel[snap["L"] - 1].tolist())
            return None

        st, r = box["calls"][0]
        if st == "ok":
            bad = judge_ok(r, box["after"], box["snap"], "first")
            if bad:
                out.bad("wrong", bad)
            return
        if not box["fired"]:
            out.bad("failed", "failed without a fault: %s" % r)
            return
        y = box["after"][0]
        if y is not None:
            ok = box["before"] is not None and P.eq(y, box["before"], 1e-5 if single else 1e-11)
            if not ok and well:
                # the selected model is the best of the tried ones
                st = scn["steps"]
                if isinstance(st, list):
                    tried = sorted(set(st))
                elif "again" in box and box["again"][0] == "ok":
                    tried = sorted(set(int(l) for l in box["again"][1][0]))
                else:
                    tried = sorted(set(np.minimum(np.ceil(np.logspace(np.log(3), np.log(L), st or 10, base=np.e)), L).astype(int).tolist()))
                Ys = {l: Hv[:, :l] @ sols[l] for l in tried}
                es = {l: errors(Tv, Ys[l], scn["cls"] or None, w) for l in tried}
                m = min(es.values())
                good = [l for l in tried if es[l] <= m + tol * max(1.0, abs(m))]
                if any(self.ties(scn, Y, 1e-2 if single else 1e-6) for Y in Ys.values()):
                    good = tried
                ok = any(P.eq(y, sel[l - 1], tol) for l in good)
            elif not well:
                ok = True
            if not ok:
                out.bad("mixture", "after (%s) the model predicts %s, neither as before nor as any selected model" % (r, y.tolist()))
                return
        if "again" in box:
            if box["again"][0] == "err":
                out.bad("again", "selecting again after (%s) failed: %s" % (r, box["again"][1]))
                return
            bad = judge_ok(box["again"][1], box["after2"], box["snap2"], "again")
            if bad:
                out.bad("again", "selecting again after (%s): %s" % (r, bad))

    @staticmethod
    def ties(scn, Y, eps):
        if not scn["cls"]:
            return False
        if scn["cls"] == "ml":
            return bool((np.abs(Y - 0.5) < eps).any())
        s = np.sort(Y, 1)
        return bool((s[:, -1] - s[:, -2] < eps).any())

    def shrink(self, scn):
        for key, val in (("precision", "double"), ("acc", None), ("acc_by", "ref"), ("src", "array"), ("prior", "none"),
                         ("batch", 100)):
            if scn[key] != val:
                s = copy.deepcopy(scn)
                s[key] = val
                yield s


PROP = C14()
