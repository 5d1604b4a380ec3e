"""C11 Structure selection yields a consistent model for every random ranking."""
import copy
import json

import numpy as np

from .. import gen, kernel as K, refmodel as R
from . import base, persist as P

PERMS = ["id", "rev", "rot", "last", "even", "rand"]


def errors(T, Y, cls, wc):
    """the documented error of every classification mode"""
    if cls == "c":
        return float(np.mean(Y.argmax(1) != T.argmax(1)))
    if cls == "wc":
        c = T.shape[1]
        e = np.zeros(c)
        for i in range(c):
            idx = np.where(T[:, i] == 1)[0]
            if len(idx):
                e[i] = np.mean(Y[idx].argmax(1) != i)
        return float((e * wc).sum() / np.sum(wc))
    if cls == "ml":
        return float(np.mean((Y > 0.5) != (T > 0.5)))
    return float(np.mean((Y - T) ** 2))


class C11(base.Prop):
    id = "C11"
    rule = ("1 run = one simulated process trains an ELM 1-3 times with validation-set, cross-validation or leave-one-out "
            "selection, with and without optimal pruning, with random or adversarial rankings from the injected random "
            "source, on the same object, with saving / loading / adding neurons / an interrupted training in between. "
            "After every training the model is compared with the reference. Non-trivial: distinct ranking and history.")
    real = ["hpelm.elm, hpelm.mss_v, hpelm.mss_cv, hpelm.mss_loo, hpelm.nnets, hpelm.modules.mrsr*", "numpy/scipy"]
    stub = ["random source (shuffle, permutation, generator state)", "clock", "delivery of interrupts"]
    assumptions = ["at least 5 neurons for cross-validation, kmax at least 5 then (the code searches from 3 neurons up)",
                   "every class present in the training data"]

    def gen(self, rng, i):
        d = rng.randint(1, 4)
        cls = rng.choice([None, None, "c", "c", "wc", "wc", "ml"])
        c = rng.randint(1, 3) if cls is None else rng.randint(2, 4)
        many = rng.random() < 0.06          # many outputs: another ranking algorithm, few samples matter
        if many:
            c = rng.choice([10, 10, 12])
        L = rng.choice([5, 6, 7, 9, 12, 17]) if rng.random() < 0.8 else rng.randint(1, 4)
        N = rng.choice([9, 12, 15, 20, 31, 31, 60, 90]) if c < 5 else rng.choice([12, 20])
        wide = rng.random() < 0.01
        if wide:
            L, N = rng.choice([70, 130]), 160
        s = {"acc": rng.choice([None, None, None, "basic"]), "inputs": d, "outputs": c, "cls": cls,
             "norm": rng.choice([0.5, 1.0, 0.1, 3.0]), "precision": rng.choice(["double", "double", "double", "single"]),
             "batch": rng.choice([1, 2, 3, 5, 7, 100]), "neurons": gen.any_neurons(rng, d, L), "N": N, "Nv": rng.choice([4, 7, 12, 30]) if not many else rng.choice([3, 4, 7, 12]),
             "rs": rng.getrandbits(30), "ops": [], "policy": {"kind": "seq"},
             "config": {"perm": [rng.choice(PERMS) for _ in range(rng.randint(1, 6))]} if rng.random() < 0.5 else {}}
        ntr = rng.choice([1, 1, 2, 2, 3])
        for j in range(ntr):
            if j:
                r = rng.random()
                if r < 0.2:
                    s["ops"].append(["saveload"])
                elif r < 0.45:
                    s["ops"].append(["neurons", rng.choice(gen.FUNCS), rng.randint(5, 7), rng.getrandbits(20)])
            s["ops"].append(self.train_op(rng, cls, L if j == 0 else 1))
            if many and rng.random() < 0.6:
                s["ops"][-1][1]["op"] = True
            if wide:
                s["ops"][-1][1]["op"] = False
        return s

    def train_op(self, rng, cls, L):
        sel = rng.choice(["V", "LOO"] + (["CV"] if L >= 5 else []))
        op = rng.random() < 0.35
        o = {"sel": sel, "op": op, "kmax": None, "k": rng.choice([3, 4, 5]), "w": cls == "wc" and rng.random() < 0.4,
             "batch": rng.choice([None, None, None, 1, 4, 50]), "late": rng.random() < 0.3, "case": rng.random() < 0.2,
             "data": rng.getrandbits(20), "t1": rng.random() < 0.3, "lay": [rng.choice(gen.ORDERS + ["ro"]) for _ in range(4)]}
        if op and rng.random() < 0.6:
            lo = 5 if sel == "CV" else 1
            o["kmax"] = rng.randint(lo, max(lo, L + 1))
        return ["train", o]

    def fault_plans(self, rng, scn, out):
        if not getattr(out, "spans", None):
            return []
        plans = []
        for _ in range(2):
            a, b = rng.choice(out.spans[:1])
            plans.append(([{"task": "u", "at": ["step", rng.randint(a + 1, max(a + 1, b))],
                            "kind": rng.choice(["kbd", "mem"])}], None))
        return plans

    def data(self, scn, seed, n):
        rs = np.random.RandomState(seed % (2 ** 31))
        X = np.round(rs.randn(n, scn["inputs"]), 3)
        c = scn["outputs"]
        if scn["cls"] in ("c", "wc"):
            lab = (np.floor(np.abs(X.sum(1)) * 2).astype(int) + (rs.rand(n) < 0.2)) % c
            if seed % 8:                     # else a class may have no samples
                lab[:c] = np.arange(c)[:n]
            T = np.eye(c)[lab]
            p = rs.permutation(n)
            X, T = X[p], T[p]
        elif scn["cls"] == "ml":
            T = (np.sin(X.sum(1, keepdims=True) * np.arange(1, c + 1)) + 0.3 * rs.randn(n, c) > 0) * 1.0
        else:
            T = np.round(np.sin(X.sum(1, keepdims=True) * np.arange(1, c + 1)) + 0.1 * rs.randn(n, c), 3)
        return X, T

    def body(self, scn, run, out):
        ns = gen.np_neurons(scn["neurons"])
        out.spans = []
        hist = []
        single = scn["precision"] == "single"
        wfix = np.array([1.0, 2.0, 0.5, 3.0, 1, 1, 1, 1, 1, 1, 2.0, 0.5, 1, 1][:scn["outputs"]])
        Xp, _ = self.data(scn, scn["rs"] + 3, 6)

        def judge(env, m, before, o, X, T, Xv, Tv, ret):
            s, e = P.quiet(env, P.snap, m)
            if s is None:
                return "snap", "model state unreadable: %s" % e
            neu = [(f, W, B) for _, f, W, B in s["neurons"]]
            k = sum(len(B) for _, _, B in neu)
            hist.append([o["sel"], o["op"], k, [len(B) for _, _, B in neu]])
            if k < 1:
                return "empty", "no neurons left"
            if s["L"] != k:
                return "count", "L=%s but %d neurons are stored" % (s["L"], k)
            for n, f, W, B in s["neurons"]:
                if n != len(B) or W.shape != (scn["inputs"], n):
                    return "count", "neuron entry (%s, %s) has W %s, B %s" % (n, f, W.shape, B.shape)
            have = {}
            for _, f, W, B in before["neurons"]:
                for j in range(len(B)):
                    have.setdefault(f, []).append(tuple(W[:, j]) + (B[j],))
            for f, W, B in neu:
                for j in range(len(B)):
                    col = tuple(W[:, j]) + (B[j],)
                    if col not in have.get(f, []):
                        return "neurons", "selected model has a %s neuron %s that is not one of the original neurons" % (f, col)
                    have[f].remove(col)
            if o["op"] and o["kmax"] is not None and k > o["kmax"]:
                return "kmax", "%d neurons left, kmax=%d" % (k, o["kmax"])
            wc = None
            if scn["cls"] == "wc":
                wc = wfix if o["w"] else R.class_weights(T)
                if s["wc"] is None or not P.eq(s["wc"], wc, 1e-5 if single else 1e-12):
                    return "wc", "class weights are %s, expected %s" % (s["wc"], wc)
            dH, dT = R.corr(X, T, neu, wc)
            A = dH + np.eye(k) * scn["norm"]
            y, e = P.quiet(env, P.predictions, m, Xp)
            if y is None:
                return "predict", "selected model does not predict: %s" % e
            if np.linalg.cond(A) < (300 if single else 1e7):
                ref = R.hidden(Xp, neu) @ np.linalg.solve(A, dT)
                if not P.eq(y, ref, 5e-3 if single else 1e-6):
                    return "weights", "predictions %s, expected %s (ridge solution on %d selected neurons)" % (
                        y.tolist(), ref.tolist(), k)
                hc, e = P.quiet(env, m.nnet.get_corr)
                if hc is not None and hc[0] is not None and not (
                        P.eq(hc[0], A, 1e-3 if single else 1e-9) and P.eq(hc[1], dT, 1e-3 if single else 1e-9)):
                    return "corr", "accumulated matrices are not those of the training set on the selected neurons"
            if s["cls"] != scn["cls"]:
                return "cls", "classification is %r, expected %r" % (s["cls"], scn["cls"])
            if o["sel"] == "CV":
                if not np.isscalar(ret) or not np.isfinite(ret) or ret < 0:
                    return "test-error", "cross-validation returned %r" % (ret,)
                r = self.crossval(env, scn, o, before, X, T, wc, k, ret, single)
                if r:
                    return r
            full = R.merge_neurons([(f, W, B) for _, f, W, B in before["neurons"]])
            if o["sel"] == "V" and not single and (not o["op"] or o["kmax"] is None):
                fH, fT = R.corr(X, T, full, wc)
                L = fH.shape[0]
                FA = fH + np.eye(L) * scn["norm"]
                if np.linalg.cond(FA) < 1e6:
                    e_full = errors(Tv, R.hidden(Xv, full) @ np.linalg.solve(FA, fT), scn["cls"], wc)
                    e_sel = errors(Tv, R.hidden(Xv, neu) @ np.linalg.solve(A, dT), scn["cls"], wc)
                    # the search criterion is error + 1% of the full error per share of neurons kept;
                    # a sample whose two best scores tie may be counted differently
                    if e_sel > e_full * (1 + 0.01 * (1 - k / L)) * (1 + 1e-6) + 1e-9 + self.slack(scn, Tv, R.hidden(Xv, full) @ np.linalg.solve(FA, fT),
                                                                       R.hidden(Xv, neu) @ np.linalg.solve(A, dT)):
                        return "worse", "validation error of the selected %d neurons is %g, of all %d neurons %g" % (
                            k, e_sel, L, e_full)
                    r = self.rank_of(env, scn, o, R.hidden(Xv, full), Tv, L)
                    if r is not None:
                        y1 = R.hidden(Xv, full)[:, r[:1]] @ np.linalg.solve(FA[np.ix_(r[:1], r[:1])], fT[r[:1]])
                        e_1 = errors(Tv, y1, scn["cls"], wc)
                        if e_sel > e_1 + 0.01 * e_full * (1 - k) / L + 1e-6 * (e_full + e_1) + 1e-9 + self.slack(
                                scn, Tv, y1, R.hidden(Xv, neu) @ np.linalg.solve(A, dT)) + self.slack(
                                scn, Tv, y1, R.hidden(Xv, full) @ np.linalg.solve(FA, fT)):
                            return "worse", "validation error of the selected %d neurons is %g, of the first ranked neuron alone %g" % (
                                k, e_sel, e_1)
            if o["sel"] == "LOO" and not single and scn["cls"] is None and (not o["op"] or o["kmax"] is None):
                e_full, c1 = self.loo(R.hidden(X, full), T, scn["norm"])
                e_sel, c2 = self.loo(R.hidden(X, neu), T, scn["norm"])
                L = sum(len(B) for _, _, B in full)
                if max(c1, c2) < 1e6 and e_sel > e_full * (1 + 0.01 * (1 - k / L)) * (1 + 1e-5) + 1e-9:
                    return "worse", "leave-one-out error of the selected %d neurons is %g, of all %d neurons %g" % (
                        k, e_sel, L, e_full)
                r = self.rank_of(env, scn, o, R.hidden(X, full), T, L)
                if r is not None:
                    e_1, c3 = self.loo(R.hidden(X, full)[:, r[:1]], T, scn["norm"])
                    if max(c1, c2) < 1e6 and e_sel > e_1 + 0.01 * e_full * (1 - k) / L + 1e-5 * (e_full + e_1) + 1e-9:
                        return "worse", "leave-one-out error of the selected %d neurons is %g, of the first ranked neuron alone %g" % (
                            k, e_sel, e_1)
            if o["sel"] == "V" and not single and o["op"] and o["kmax"] is not None and o["kmax"] < before["L"]:
                r = self.limited(env, scn, o, full, X, T, Xv, Tv, wc, neu, k, A, dT)
                if r:
                    return r
            return None

        def train(env, m, o, X, T, Xv, Tv):
            args = [o["sel"]] + (["OP"] if o["op"] else []) + ([scn["cls"]] if scn["cls"] else [])
            if o["late"]:
                args.reverse()
            kw = {}
            if o["sel"] == "V":
                kw = {"Xv": Xv, "Tv": Tv}
            if o["sel"] == "CV":
                kw = {"k": o["k"]}
            if o["kmax"] is not None:
                kw["kmax"] = o["kmax"]
            if o["w"]:
                kw["w"] = wfix
            if o["batch"] is not None:
                kw["batch"] = o["batch"]
            X, T, Xv, Tv = [gen.lay(A, q) for A, q in zip((X, T, Xv, Tv), o["lay"])]
            kw.update({q: A for q, A in (("Xv", Xv), ("Tv", Tv)) if q in kw})
            t = T[:, 0] if o["t1"] and scn["outputs"] == 1 else T
            return m.train(X, t, *args, **kw)

        def new(env):
            kw = {"accelerator": "basic"} if scn["acc"] == "basic" else {}
            return env.hpelm.ELM(scn["inputs"], scn["outputs"], norm=scn["norm"], precision=scn["precision"],
                                 batch=scn["batch"], **kw)

        def user(env):
            k = env.k
            k.armed = False
            np.random.seed(scn["rs"] % 100003)
            m = new(env)
            for f, W, B in ns:
                m.add_neurons(W.shape[1], f, W, B)
            first = True
            for op in scn["ops"]:
                if op[0] == "saveload":
                    m.save(run.path("m.pkl"))
                    m = new(env)
                    m.load(run.path("m.pkl"))
                elif op[0] == "neurons":
                    rs = np.random.RandomState(op[3])
                    W = np.round(rs.randn(scn["inputs"], op[2]), 3)
                    m.add_neurons(op[2], op[1], W, np.round(rs.rand(op[2]) + 0.5, 3))
                else:
                    o = op[1]
                    X, T = self.data(scn, o["data"], scn["N"])
                    Xv, Tv = self.data(scn, o["data"] + 1, scn["Nv"])
                    before, e = P.quiet(env, P.snap, m)
                    if o["kmax"] is not None and o["kmax"] > before["L"]:
                        o = dict(o, kmax=before["L"])
                    keep = [a.copy() for a in (X, T, Xv, Tv)]
                    a = k.current.n
                    if first and k.faults:
                        try:
                            k.armed = True
                            train(env, m, o, X, T, Xv, Tv)
                        except (KeyboardInterrupt, MemoryError):
                            k.armed = False
                            before, e = P.quiet(env, P.snap, m)
                            if o["sel"] == "CV" and before["L"] < 5:
                                return
                            if o["kmax"] is not None and o["kmax"] > before["L"]:
                                o = dict(o, kmax=before["L"])
                        else:
                            k.armed = False
                            first = False
                            continue
                    first = False
                    k.perms = []
                    ret = train(env, m, o, X, T, Xv, Tv)
                    o = dict(o, perms=k.perms)
                    out.spans.append((a, k.current.n))
                    for x, y in zip(keep, (X, T, Xv, Tv)):
                        if not np.array_equal(x, y):
                            out.bad("input", "training changed the caller's data")
                            return
                    r = judge(env, m, before, o, X, T, Xv, Tv, ret)
                    if r:
                        out.bad(*r)
                        return

        run.main("u", user)
        k = run.go()
        if k.stuck:
            out.bad("stuck", k.stuck)
        for p in k.procs:
            if p.error:
                out.bad("failed", "training failed: %s" % p.error)
        out.nontrivial_history = True
        k.hash.update(json.dumps([hist, scn["neurons"]]).encode())

    @staticmethod
    def loo(H, T, norm):
        """leave-one-out mean squared error of ridge regression, by leaving out"""
        A, B = H.T @ H + np.eye(H.shape[1]) * norm, H.T @ T
        e, c = [], 0
        for h, t in zip(H, T):
            Ai = A - np.outer(h, h)
            c = max(c, np.linalg.cond(Ai))
            e.append(h @ np.linalg.solve(Ai, B - np.outer(h, t)) - t)
        return float(np.mean(np.square(e))), c

    def crossval(self, env, scn, o, before, X, T, wc, nsel, ret, single):
        """errors of cross-validation recomputed for the ranking drawn in every split"""
        full = R.merge_neurons([(f, W, B) for _, f, W, B in before["neurons"]])
        L, K = sum(len(B) for _, _, B in full), o["k"]
        top = o["kmax"] or L
        ranks = [p for p in o["perms"] if len(p) == L]
        if not o["op"] and len(ranks) != K or single:
            return None
        idx = [np.arange(len(X))[i::K] for i in range(K)]
        ev, es, ef, et, e3, slack, slack_t = 0, 0, 0, 0, 0, 0.0, 0.0
        for i in range(K):
            it = [(i + j) % K for j in range(K)]
            tr, vl, ts = np.hstack([idx[j] for j in it[:-2]]), idx[it[-2]], idx[it[-1]]
            H, t = R.corr(X[tr], T[tr], full, wc)
            H = H + np.eye(L) * scn["norm"]
            if np.linalg.cond(H) > 1e6:
                return None
            Hv, Ht = R.hidden(X[vl], full), R.hidden(X[ts], full)
            r = self.opt_rank(env, scn, Hv, T[vl], top) if o["op"] else ranks[i]
            if r is None:
                return None
            q, r, u = r[:top], r[:nsel], r[:3]
            b4 = np.linalg.solve(H[np.ix_(u, u)], t[u])
            e3 += errors(T[vl], Hv[:, u] @ b4, scn["cls"], wc) / K
            slack += self.slack(scn, T[vl], Hv[:, u] @ b4, Hv[:, u] @ b4)
            b1, b2, b3 = np.linalg.solve(H[np.ix_(r, r)], t[r]), np.linalg.solve(H, t), np.linalg.solve(H[np.ix_(q, q)], t[q])
            ev += errors(T[vl], Hv[:, r] @ b1, scn["cls"], wc) / K
            ef += errors(T[vl], Hv @ b2, scn["cls"], wc) / K
            es += errors(T[ts], Ht[:, r] @ b1, scn["cls"], wc) / K
            et += errors(T[vl], Hv[:, q] @ b3, scn["cls"], wc) / K
            slack += self.slack(scn, T[vl], Hv[:, r] @ b1, Hv @ b2) + self.slack(scn, T[vl], Hv[:, q] @ b3, Hv[:, q] @ b3)
            slack_t += self.slack(scn, T[ts], Ht[:, r] @ b1, Ht[:, r] @ b1)
        if abs(ret - es) > 1e-6 * (1 + abs(es)) + slack_t:
            return "test-error", "cross-validation returned %r, the test error with %d neurons is %r" % (ret, nsel, es)
        if ev > e3 + 0.01 * ef * (3 - nsel) / L + 1e-5 * (e3 + ef) + 1e-9 + slack:
            return "worse", "cross-validation error with the selected %d neurons is %g, with 3 neurons %g" % (nsel, ev, e3)
        if top < L:
            if ev > et + 0.01 * ef * (1 - nsel / top) + 1e-5 * abs(et) + 1e-9 + slack:
                return "worse", "cross-validation error with the selected %d neurons is %g, with the %d best ranked %g" % (nsel, ev, top, et)
            return None
        if ev > ef * (1 + 0.01 * (1 - nsel / L)) * (1 + 1e-5) + 1e-9 + slack:
            return "worse", "cross-validation error with the selected %d neurons is %g, with all %d neurons %g" % (nsel, ev, L, ef)
        return None

    def rank_of(self, env, scn, o, H, T, L):
        """the ranking used in a training without kmax, if known"""
        if o["op"]:
            return self.opt_rank(env, scn, H, T, L)
        r = [p for p in o["perms"] if len(p) == L]
        return r[0] if len(r) == 1 else None

    @staticmethod
    def opt_rank(env, scn, Hv, Tv, top):
        """the ranking of the package's own optimal pruning, if it is not a matter of rounding"""
        mods = env.proc.modules.get("hpelm.modules")
        fn = getattr(mods, "mrsr" if scn["outputs"] < 10 else "mrsr2", None)
        if fn is None:
            return None
        ranks = []
        for eps in (0, 1e-9, -1e-9):
            H = Hv * (1 + eps * np.cos(np.arange(Hv.size)).reshape(Hv.shape))
            r, e = P.quiet(env, fn, H, Tv, top)
            if r is None or len(r) < top:
                return None
            ranks.append([int(x) for x in r])
        return ranks[0] if ranks[0] == ranks[1] == ranks[2] else None

    def limited(self, env, scn, o, full, X, T, Xv, Tv, wc, neu, k, A, dT):
        """with at most kmax neurons the selected model is not worse than the kmax best ranked ones"""
        L, top = sum(len(B) for _, _, B in full), o["kmax"]
        Hv = R.hidden(Xv, full)
        r = self.opt_rank(env, scn, Hv, Tv, top)
        if r is None:
            return None
        fH, fT = R.corr(X, T, full, wc)
        FA = fH + np.eye(L) * scn["norm"]
        S = FA[np.ix_(r, r)]
        if np.linalg.cond(FA) > 1e6:
            return None
        yt, ys = Hv[:, r] @ np.linalg.solve(S, fT[r]), R.hidden(Xv, neu) @ np.linalg.solve(A, dT)
        yf = Hv @ np.linalg.solve(FA, fT)
        e_top, e_sel, e_full = [errors(Tv, y, scn["cls"], wc) for y in (yt, ys, yf)]
        if e_sel > e_top + 0.01 * e_full * (1 - k / top) + 1e-6 * abs(e_top) + 1e-9 + self.slack(scn, Tv, yt, ys) + self.slack(scn, Tv, yf, yf):
            return "worse", "validation error of the selected %d neurons is %g, of the %d best ranked neurons %g" % (k, e_sel, top, e_top)
        return None

    @staticmethod
    def slack(scn, T, Y1, Y2):
        """error that near-ties of the scores can account for"""
        if scn["cls"] is None:
            return 0.0
        n = 0
        for Y in (Y1, Y2):
            if scn["cls"] == "ml":
                n += int((np.abs(Y - 0.5) < 1e-6).sum())
            else:
                s = np.sort(Y, 1)
                n += int((s[:, -1] - s[:, -2] < 1e-6).sum())
        return float(n)

    def shrink(self, scn):
        for i in range(len(scn["ops"])):
            if len(scn["ops"]) > 1:
                s = copy.deepcopy(scn)
                del s["ops"][i]
                yield s
        for key, val in (("precision", "double"), ("acc", None), ("config", {}), ("batch", 100)):
            if scn[key] != val:
                s = copy.deepcopy(scn)
                s[key] = val
                yield s


PROP = C11()
