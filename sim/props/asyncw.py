"""Workload shared by C04-C06: sequences of asynchronous calls and their
synchronous twins on the same data."""
import copy

import numpy as np

from .. import engine, gen, kernel as K, refmodel as R


def gen_range(rng, N):
    r = rng.random()
    if r < 0.3:
        return 0, None
    a = rng.randrange(N)
    if r < 0.45:
        return a, None
    if r < 0.6:
        return a, N - a + rng.randint(1, 5)          # more than there is: cut to the end
    return a, rng.randint(1, N - a)


def gen_empty(rng, kinds, N):
    """a call on a range without rows"""
    a, n = rng.choice([(rng.randrange(N), 0), (N, None), (N + rng.randint(1, 30), None), (rng.randrange(N), -rng.randint(1, 9))])
    return {"op": rng.choice(kinds), "istart": a, "icount": n, "files": rng.random() < 0.3, "old": None, "empty": True}


def gen_scn(rng, kinds):
    d = gen.size(rng, 1, 3, [8, 20, 33])
    cls = rng.choice([None, None, "c", "wc", "wc", "ml"])
    c = gen.size(rng, 1, 3, [5, 12]) if cls is None else gen.size(rng, 2, 3, [5, 11])
    L = gen.size(rng, 1, 4, [12, 40, 130])
    N = rng.randint(1, 14) if cls != "wc" else rng.randint(c + 1, 14)
    single = rng.random() < 0.3
    large = cls != "ml" and rng.random() < 0.02          # around the default batch size
    if large:
        N, single = rng.choice(gen.BIG), False
    T = gen.big(rng, N, c, bool(cls)) if large else (gen.onehot(rng, N, c, cover=rng.random() < 0.8) if cls in ("c", "wc") else
         [[rng.randint(0, 1) for _ in range(c)] for _ in range(N)] if cls == "ml" else gen.int_matrix(rng, N, c))
    users = []
    for u in range(rng.choice([1, 1, 1, 2])):
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            kind = rng.choice(kinds)
            a, n = gen_range(rng, N)
            if cls == "wc" and kind in ("add", "train"):
                # every class is in the range
                for _ in range(4):
                    if large and (n is None or n > 500) or not large and {r.index(1) for r in T[a:None if n is None else a + n]} == set(range(c)):
                        break
                    a, n = gen_range(rng, N)
                else:
                    a, n = 0, rng.choice([None, N, N + 3])
            op = {"op": kind, "istart": a, "icount": n}
            if kind == "add":
                op["files"] = rng.random() < 0.35
            if kind == "train":
                op["cls"] = cls
                op["w"] = [rng.choice([1.0, 4.0, 0.25]) for _ in range(c)] if cls == "wc" and rng.random() < 0.5 else None
                op["batch"] = rng.choice([None, None, 1, 2, 5]) if not large else rng.choice([None, 700])
            if kind == "predict":
                op["old"] = rng.choice([None, None, "bigger", "junk"])
            ops.append(op)
        users.append({"name": "u%d" % u, "ops": ops, "batch": rng.choice([1, 1, 2, 3, 4, 7, 100]) if not large else rng.choice([1000, 1000, 400, 5000])})
    return {"inputs": d, "outputs": c, "cls": cls, "L": L, "N": N,
            "norm": rng.choice([0.5, 1.0, 2.0]), "precision": "single" if single else "double",
            "w": [rng.choice([1.0, 4.0, 0.25]) for _ in range(c)] if cls == "wc" and rng.random() < 0.5 else None,
            "neurons": gen.lin_neurons(rng, d, L),
            "B": gen.int_matrix(rng, L, c),
            "X": gen.big(rng, N, d) if large else gen.int_matrix(rng, N, d),
            "T": T,
            "users": users, "policy": gen.policy(rng),
            "config": {"flock": rng.random() < 0.8, "pipe_cap": rng.choice([65536, 65536, 1])}}


class Async:
    def __init__(self, scn, run):
        self.scn, self.run = scn, run
        self.X = gen.mat(scn["X"])
        self.T = gen.mat(scn["T"])
        self.neurons = gen.np_neurons(scn["neurons"])
        self.res = {}              # user -> list of result dicts, one per op
        self.left = []             # helpers left running after a call
        self.procs = {}

    def setup(self):
        s, run = self.scn, self.run
        dt = "float32" if s["precision"] == "single" else None
        engine.write_h5(run.path("X.h5"), self.X, dt, chunkshape=tuple(s["chunk"]) if s.get("chunk") else None)
        engine.write_h5(run.path("T.h5"), self.T, dt)
        for u in s["users"]:
            for j, op in enumerate(u["ops"]):
                if op.get("old") == "bigger":
                    engine.write_h5(run.path("Y-%s-%d.h5" % (u["name"], j)), np.full((s["N"] + 3, s["outputs"]), 77.0))
                elif op.get("old") == "junk":
                    with open(run.path("Y-%s-%d.h5" % (u["name"], j)), "wb") as f:
                        f.write(b"junk" * 50)
            self.procs[u["name"]] = run.main(u["name"], lambda env, u=u: self.user(env, u, True))

    def model(self, env, u):
        s = self.scn
        m = env.hpelm.HPELM(s["inputs"], s["outputs"], classification=s["cls"] or "", w=s["w"], batch=u["batch"],
                            norm=s["norm"], precision=s["precision"], tprint=s.get("tprint", 5))
        for f, W, B in self.neurons:
            m.add_neurons(W.shape[1], f, W, B)
        m.nnet.set_B(np.array(s["B"], float))
        return m

    def user(self, env, u, is_async):
        m = self.model(env, u)
        out = self.res.setdefault(u["name"], [])
        env.run_async = is_async
        for j, op in enumerate(u["ops"]):
            r = {"op": op["op"], "status": "running", "t0": env.k.now, "ev0": len(env.k.events)}
            out.append(r)
            try:
                self.do(env, m, u, j, op, is_async, r)
                r["status"] = "ok"
            except K.SimKilled:
                raise
            except BaseException as e:
                r["status"] = "exc:%s: %s" % (type(e).__name__, e)
            r["t1"], r["ev1"] = env.k.now, len(env.k.events)
            left = [p.name for p in env.proc.children if not p.ended]
            if left:
                self.left.append("%s op %d (%s): %s" % (u["name"], j, r["status"], left))
            env.k.quiet += 1
            try:
                HH, HT = m.nnet.get_corr() if m.nnet.HH is not None else (None, None)
                r["HH"], r["HT"] = (None, None) if HH is None else (np.array(HH, float), np.array(HT, float))
                B = m.nnet.get_B()
                r["B"] = None if B is None else np.array(B, float)
                r["wc"] = None if m.wc is None else np.array(m.wc, float)
                r["cls"] = m.classification
            except Exception as e:
                r["state_error"] = repr(e)
            finally:
                env.k.quiet -= 1
            if r["status"] != "ok" and self.scn.get("stop_on_error", True):
                break

    def do(self, env, m, u, j, op, is_async, r):
        s = self.scn
        kw = {"istart": op["istart"]}
        if op["icount"] is not None:
            kw["icount"] = op["icount"]
        fX, fT = env.path("X.h5"), env.path("T.h5")
        if op["op"] == "add":
            if op.get("files"):
                kw["fHH"] = env.path("HH-%s.h5" % u["name"])
                kw["fHT"] = env.path("HT-%s.h5" % u["name"])
            (m.add_data_async if is_async else m.add_data)(fX, fT, **kw)
        elif op["op"] == "train":
            if op.get("w") is not None:
                kw["w"] = op["w"]
            if op.get("batch"):
                kw["batch"] = op["batch"]
            args = [op["cls"]] if op.get("cls") else []
            (m.train_async if is_async else m.train)(fX, fT, *args, **kw)
        elif op["op"] == "predict":
            fY = env.path("Y-%s-%d.h5" % (u["name"], j))
            if is_async:
                m.predict_async(fX, fY, **kw)
                r["open"] = [(p.name, mode) for p in env.k.procs for h, path, mode in p.h5 if path == fY]
                Y, err = engine.read_h5(fY)
                r["Y"], r["Yerr"] = Y, err
            else:
                r["Y"], r["Yerr"] = np.array(m.predict(fX, **kw)), None

    def twin(self, out_of):
        """synchronous run of the same calls, in a second simulated run of its own"""
        scn = copy.deepcopy(self.scn)
        scn["faults"] = []
        scn["policy"] = {"kind": "seq"}
        scn["config"] = {"flock": True}
        run = engine.Run(scn)
        A = Async(scn, run)
        A.setup_twin()
        try:
            k = run.go()
            if k.stuck:
                return None, "synchronous twin stuck: %s" % k.stuck
            return A.res, None
        finally:
            run.close()

    def setup_twin(self):
        s, run = self.scn, self.run
        dt = "float32" if s["precision"] == "single" else None
        engine.write_h5(run.path("X.h5"), self.X, dt)
        engine.write_h5(run.path("T.h5"), self.T, dt)
        for u in s["users"]:
            run.main(u["name"], lambda env, u=u: self.user(env, u, False))

    # ---- what the results must be, from the reference model
    def rows(self, op):
        a = op["istart"]
        n = len(self.X) - a if op["icount"] is None else min(op["icount"], len(self.X) - a)
        return slice(a, a + n)

    def expect(self, u):
        """per op: (HH, HT, B, Y) after it by the reference model; None = not checked"""
        s = self.scn
        cls, w = s["cls"], s["w"]
        w = None if w is None else np.array(w, float)
        HH = HT = None
        B = np.array(s["B"], float)
        base = np.eye(s["L"]) * s["norm"]
        exact = True
        res = []
        Xs, Ts = self.X, self.T
        for op in u["ops"]:
            if op.get("empty"):
                res.append(None)
                continue
            sl = self.rows(op)
            Y = None
            if op["op"] in ("add", "train"):
                if op["op"] == "train":
                    HH = HT = None
                    cls = op.get("cls")
                    w = None if op.get("w") is None else np.array(op["w"], float)
                if op.get("files"):
                    HH = HT = None
                if cls == "wc" and w is None:
                    w = R.class_weights(Ts[sl])
                    if s["precision"] == "single":
                        w = w.astype(np.float32).astype(float)
                if cls == "wc" and not np.all(np.isin(np.log2(w) % 2, (0,))):
                    exact = False
                if HH is None:
                    HH, HT = base.copy(), np.zeros((s["L"], s["outputs"]))
                dH, dT = R.corr(Xs[sl], Ts[sl], self.neurons, w if cls == "wc" else None)
                HH, HT = HH + dH, HT + dT
                if op["op"] == "train":
                    B = np.linalg.solve(HH, HT)
            else:
                Y = R.hidden(Xs[sl], self.neurons) @ B
            res.append({"HH": None if HH is None else HH.copy(), "HT": None if HT is None else HT.copy(),
                        "B": B.copy(), "Y": Y, "exact": exact})
        return res


def same(a, b, exact, single):
    if a is None or b is None:
        return a is None and b is None
    a, b = np.asarray(a, float), np.asarray(b, float)
    if exact:
        return a.shape == b.shape and bool(np.array_equal(a, b))
    t = 3e-3 if single else 1e-8
    return R.close(a, b, t, t)


def well(HH, single):
    return HH is None or np.linalg.cond(HH) < (300 if single else 1e7)


def judge_results(A, out, need_ok=True):
    """every call that returned has the results of the reference model"""
    s = A.scn
    single = s["precision"] == "single"
    for u in s["users"]:
        exp = A.expect(u)
        got = A.res.get(u["name"], [])
        for j, op in enumerate(u["ops"]):
            if j >= len(got):
                if need_ok:
                    out.bad("not-run", "%s op %d did not run" % (u["name"], j))
                break
            r, e = got[j], exp[j]
            if op.get("empty"):            # the last one
                break
            if r["status"] != "ok":
                if need_ok:
                    out.bad("call-failed", "%s op %d %s: %s" % (u["name"], j, op, r["status"]))
                break
            what = "%s op %d %s" % (u["name"], j, op)
            if "state_error" in r:
                out.bad("state", "%s: %s" % (what, r["state_error"]))
                continue
            if op["op"] != "predict":
                for n in ("HH", "HT"):
                    if not same(r[n], e[n], e["exact"], single):
                        out.bad("accumulation", "%s: %s is %s, expected %s" % (
                            what, n, None if r[n] is None else r[n].tolist(), None if e[n] is None else e[n].tolist()))
            if not well(e["HH"], single):
                break
            if not same(r["B"], e["B"], False, single):
                out.bad("weights", "%s: output weights %s, expected %s" % (
                    what, None if r["B"] is None else r["B"].tolist(), e["B"].tolist()))
            if op["op"] == "predict":
                if r["Y"] is None:
                    out.bad("output", "%s: output file %s" % (what, r["Yerr"]))
                elif not same(r["Y"], e["Y"], False, single):
                    out.bad("output", "%s: wrote %s, expected %s" % (what, np.asarray(r["Y"]).tolist(), e["Y"].tolist()))
                if r.get("open"):
                    out.bad("open", "%s: output file still open in %s" % (what, r["open"]))


def shrink(scn):
    for i in range(len(scn["users"])):
        if len(scn["users"]) > 1:
            s = copy.deepcopy(scn)
            s["users"].pop(i)
            yield s
        for j in range(len(scn["users"][i]["ops"])):
            if len(scn["users"][i]["ops"]) > 1:
                s = copy.deepcopy(scn)
                s["users"][i]["ops"].pop(j)
                yield s
    for key, val in (("precision", "double"),):
        if scn[key] != val:
            s = copy.deepcopy(scn)
            s[key] = val
            yield s
    if scn["config"].get("pipe_cap") != 65536:
        s = copy.deepcopy(scn)
        s["config"]["pipe_cap"] = 65536
        yield s
