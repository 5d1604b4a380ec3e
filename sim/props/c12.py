"""C12 Trained models can be used from several threads; models are independent."""
import copy
import pickle

import numpy as np

from .. import gen, kernel as K, refmodel as R
from . import base, persist as P

OPS = ["predict", "predict", "predict", "project", "error", "confusion", "dumps", "save", "str", "load"]


class C12(base.Prop):
    id = "C12"
    rule = ("1 run = 2-4 threads of one simulated process; each does 1-5 calls: predict / project / error / confusion / "
            "dumps / save on one shared trained ELM or HPELM, or builds and trains a model of its own (basic, validation "
            "or leave-one-out with optimal pruning, in pieces). The scheduler switches threads at any source line. Results are "
            "compared with the same calls made alone on an identical model in another process. Non-trivial: at least one switch "
            "inside a call or an injected MemoryError in one thread (the others, and the model, must not notice).")
    real = ["hpelm.elm, hpelm.hp_elm (arrays), hpelm.nnets, hpelm.mss_*", "numpy/scipy", "pickle"]
    stub = ["thread scheduler", "clock", "file system operations of save/load"]
    assumptions = ["threads switch between source lines of the package (numpy calls are atomic)",
                   "random rankings are not used: the random source is shared by design"]

    def gen(self, rng, i):
        s = {"model": self.gen_model(rng), "threads": [], "policy": gen.policy(rng, ["rw", "rw", "rw", "pct", "rtb"])}
        while s["policy"]["kind"] == "rw" and s["policy"]["p"] == 0:
            s["policy"] = gen.policy(rng, ["rw"])
        nt = rng.choice([2, 2, 3, 4])
        own = rng.choice([0.0, 0.0, 0.3, 1.0])
        for j in range(nt):
            if rng.random() < own:
                s["threads"].append({"own": self.gen_model(rng), "data": rng.getrandbits(20), "train": self.gen_train(rng)})
            else:
                ops = []
                for _ in range(rng.randint(1, 5)):
                    o = rng.choice(OPS)
                    ops.append([o, rng.randint(1, 9), rng.getrandbits(20), rng.randint(0, 2), rng.random() < 0.3])
                s["threads"].append({"ops": ops})
        return s

    fault_variants = 1

    def fault_plans(self, rng, scn, out):
        j = rng.randrange(len(scn["threads"]))
        n = out.task_n.get("t%d" % j, 1)
        return [([{"task": "t%d" % j, "at": ["step", rng.randint(2, max(2, n))], "kind": "mem"}], None)]

    def gen_model(self, rng):
        d = gen.size(rng, 1, 3, [8, 20, 33])
        cls = rng.choice(["", "", "c", "wc", "ml"])
        c = gen.size(rng, 2, 3, [5]) if cls else gen.size(rng, 1, 2, [5, 12])
        return {"kind": rng.choice(["ELM", "HPELM"]), "acc": rng.choice([None, None, "basic"]), "inputs": d, "outputs": c,
                "cls": cls, "norm": rng.choice([0.5, 1.0]), "precision": rng.choice(["double", "double", "single"]),
                "batch": rng.choice([1, 2, 3, 100]), "neurons": gen.any_neurons(rng, d, rng.randint(1, 6)),
                "data": rng.getrandbits(30)}

    def gen_train(self, rng):
        return {"how": rng.choice(["basic", "basic", "pieces", "V", "LOO"]), "N": rng.choice([6, 9, 12])}

    def data(self, m, seed, n):
        rs = np.random.RandomState(seed % (2 ** 31))
        X = np.round(rs.randn(n, m["inputs"]), 3)
        c = m["outputs"]
        if m["cls"] in ("c", "wc"):
            T = np.eye(c)[rs.permutation(np.arange(n) % c)]
        elif m["cls"] == "ml":
            T = (rs.rand(n, c) > 0.5) * 1.0
        else:
            T = np.round(rs.randn(n, c), 3)
        return X, T

    def new(self, env, m):
        kw = {"accelerator": "basic"} if m["acc"] == "basic" else {}
        o = getattr(env.hpelm, m["kind"])(m["inputs"], m["outputs"], classification=m["cls"], norm=m["norm"],
                                          precision=m["precision"], batch=m["batch"], **kw)
        for f, W, B in gen.np_neurons(m["neurons"]):
            o.add_neurons(W.shape[1], f, W, B)
        return o

    def make(self, env, m):
        o = self.new(env, m)
        X, T = self.data(m, m["data"], 10)
        o.train(X, T, *([m["cls"]] if m["cls"] else []))
        return o

    def do_op(self, env, m, o, op, tag):
        """one call on the shared model o; returns a comparable value"""
        name, n, seed, off, extra = op
        X, T = self.data(m, seed, n)
        _, Y = self.data(m, seed + 1, n)
        Y = Y + 0.01 * np.arange(m["outputs"])
        hp = m["kind"] == "HPELM"
        if name in ("predict", "project"):
            kw = {"istart": min(off, n - 1)} if hp else {}
            if hp and extra:
                w = m["outputs"] if name == "predict" else sum(len(x[2]) for x in m["neurons"])
                buf = np.zeros((n - kw["istart"], w))
                getattr(o, name)(X, buf, **kw)
                return buf
            return getattr(o, name)(X, **kw)
        if name == "error":
            return np.array([[float(o.error(T, Y))]])
        if name == "confusion":
            if not m["cls"]:
                return np.array([[float(o.error(T, Y))]])
            return o.confusion(T, Y)
        if name == "str":
            return str(o)
        if name == "dumps":
            return self.unpack(env, m, o.dumps())
        if name == "load":
            e = env.hpelm.ELM(1, 1)
            e.loads(o.dumps())
            return e.predict(X)
        if name == "save":
            p = env.path("m-%s.pkl" % tag)
            o.save(p)
            with open(p, "rb") as f:
                return self.unpack(env, m, f.read())
        raise ValueError(name)

    def unpack(self, env, m, b):
        d, e = P.quiet(env, pickle.loads, b)
        if d is None:
            return e
        return {"B": d["Beta"], "neurons": d["neurons"], "norm": float(d["norm"]), "cls": d["Classification"],
                "wc": d["Weights_WC"], "io": (d["inputs"], d["outputs"])}

    def do_own(self, env, t, tag):
        m, tr = t["own"], t["train"]
        o = self.new(env, m)
        X, T = self.data(m, t["data"], tr["N"])
        cls = [m["cls"]] if m["cls"] else []
        how = tr["how"]
        if m["kind"] == "HPELM" and how in ("V", "LOO") or (how == "pieces" and m["cls"] == "wc"):
            how = "basic"
        if how == "basic":
            o.train(X, T, *cls)
        elif how == "pieces":
            h = tr["N"] // 2
            o.add_data(X[:h], T[:h])
            o.add_data(X[h:], T[h:])
            o.nnet.solve()
        elif how == "V":
            Xv, Tv = self.data(m, t["data"] + 1, 6)
            o.train(X, T, "V", "OP", *cls, Xv=Xv, Tv=Tv)
        else:
            o.train(X, T, "LOO", "OP", *cls)
        return o

    def body(self, scn, run, out):
        m = scn["model"]
        res, exp, box = {}, {}, {}

        def one_thread(env, j, t, o, dst):
            r = dst.setdefault(j, [])
            if "own" in t:
                try:
                    x = self.do_own(env, t, j)
                    r.append(("ok", P.quiet(env, self.own_state, x, t)[0]))
                except K.SimKilled:
                    raise
                except Exception as e:
                    r.append(("err", "%s: %s" % (type(e).__name__, e)))
                return
            for i, op in enumerate(t["ops"]):
                try:
                    r.append(("ok", self.do_op(env, m, o, op, "%s-%d" % (j, i))))
                except K.SimKilled:
                    raise
                except Exception as e:
                    r.append(("err", "%s: %s" % (type(e).__name__, e)))

        def user(env):
            box["m"] = self.make(env, m)
            env.k.block(lambda: all(len(res.get(j, ())) == (1 if "own" in t else len(t["ops"]))
                                    for j, t in enumerate(scn["threads"])), None, "threads")
            box["snap"] = P.quiet(env, P.snap, box["m"])

        def thread(j, t):
            def fn(env):
                if "own" not in t:
                    env.k.block(lambda: "m" in box, None, "model")
                one_thread(env, j, t, box.get("m"), res)
            return fn

        def twin(env):
            o = self.make(env, m)
            box["snap0"] = P.quiet(env, P.snap, o)
            for j, t in enumerate(scn["threads"]):
                one_thread(env, j, t, o, exp)

        u = run.main("u", user)
        for j, t in enumerate(scn["threads"]):
            run.thread(u, "t%d" % j, thread(j, t))
        run.main("twin", twin, after=lambda: u.ended)
        k = run.go()
        if k.stuck:
            out.bad("stuck", k.stuck)
        for p in k.procs:
            if p.error:
                out.bad("proc-error", "%s: %s" % (p.name, p.error))
        if out.violations:
            return
        for j, t in enumerate(scn["threads"]):
            for i, (a, b) in enumerate(zip(res[j], exp[j])):
                if a == ("err", "MemoryError: ") and any(f["_fired"] and f["task"] == "t%d" % j for f in k.faults):
                    continue                # only the call that ran out of memory may fail
                what = "training of its own model" if "own" in t else t["ops"][i][0]
                if a[0] != b[0] or not self.same(a[1], b[1]):
                    out.bad("result", "thread %d, %s: got %s, alone %s" % (j, what, str(a)[:400], str(b)[:400]))
                    return
        s, s0 = box["snap"], box["snap0"]
        if s[0] is None or s0[0] is None:
            out.bad("changed", "model state unreadable: %s %s" % (s[1], s0[1]))
        else:
            d = P.diff(s0[0], s[0], None, 1e-12)
            if d:
                out.bad("changed", "the shared model has changed: %s" % d)

    def own_state(self, o, t):
        X, _ = self.data(t["own"], 77, 5)
        return {"snap": P.snap(o), "Y": P.predictions(o, X)}

    def same(self, a, b):
        if type(a) is not type(b) and not (np.isscalar(a) and np.isscalar(b)):
            return False
        if isinstance(a, dict):
            return sorted(a) == sorted(b) and all(self.same(a[k], b[k]) for k in a)
        if isinstance(a, (list, tuple)):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, np.ndarray):
            return a.shape == b.shape and P.eq(a, b, 1e-12)
        return a == b

    def shrink(self, scn):
        for i in range(len(scn["threads"])):
            if len(scn["threads"]) > 1:
                s = copy.deepcopy(scn)
                del s["threads"][i]
                yield s
        for i, t in enumerate(scn["threads"]):
            for j in range(len(t.get("ops", ()))):
                if len(t["ops"]) > 1:
                    s = copy.deepcopy(scn)
                    del s["threads"][i]["ops"][j]
                    yield s
        for x in P.shrink_model(dict(scn["model"], trained="set", pruned=False, w=None)):
            s = copy.deepcopy(scn)
            for key in ("trained", "pruned", "w"):
                x.pop(key, None)
            s["model"] = x
            if x["cls"] == scn["model"]["cls"]:
                yield s


PROP = C12()
