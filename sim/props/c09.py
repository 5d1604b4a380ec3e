"""C09 Any history of updates ends in the ridge solution of the accumulated data."""
import copy
import json

import numpy as np

from .. import engine, gen, kernel as K, refmodel as R
from . import base, persist as P


ORDERS = gen.ORDERS


def array(op, key):
    """the numpy array a user passes: any type and memory layout"""
    A = gen.mat(op[key])
    A = A.astype(op.get("dt" + key, "f8"))
    return gen.lay(A, op.get("order", "C"))


def rows(rng, s, n):
    if n >= 1000:
        return gen.big(rng, n, s["inputs"]), gen.big(rng, n, s["outputs"], bool(s["cls"]))
    X = gen.int_matrix(rng, n, s["inputs"])
    c = s["outputs"]
    T = gen.onehot(rng, n, c, cover=rng.random() < 0.7) if s["cls"] in ("c", "wc") else gen.int_matrix(rng, n, c)
    return X, T


class C09(base.Prop):
    id = "C09"
    rule = ("1 run = a random history of 3-14 operations on an ELM or HPELM (add neurons, add data from arrays or HDF5 "
            "row ranges, with and without HH/HT files, asynchronously, reset, solve, get_corr, set_corr, exchange "
            "accumulations with another model or let it continue from them, train, predict/project/error/confusion, change batch, save and continue "
            "in another simulated process, sum the accumulations of two processes), both solvers and precisions, "
            "regular and rank-deficient data. Checked against whole-matrix sums and ridge solutions of a reference "
            "model. Distinct: by operation history and schedule.")
    real = ["hpelm.elm, hpelm.hp_elm, hpelm.nnets (both CPU solvers)", "PyTables/HDF5 (core driver)", "BLAS/LAPACK"]
    stub = ["process scheduler", "disk image exchange", "multiprocessing", "clock"]
    assumptions = ["class weights computed automatically from the first data added stay until the next train()"]
    quick_s = 60

    def gen(self, rng, i):
        d = gen.size(rng, 1, 3, [8, 20, 33])
        kind = rng.choice(["ELM", "ELM", "HPELM"])
        cls = rng.choice([None, None, "c", "wc"])
        c = gen.size(rng, 1, 3, [5, 12]) if cls is None else gen.size(rng, 2, 3, [5, 11])
        mode = rng.choice(["exact", "exact", "exact", "exact", "nonlin", "nonlin", "dup", "dup", "sing"])
        L = gen.size(rng, 1, 4, [12, 40, 130])
        s = {"kind": kind, "acc": rng.choice([None, None, "basic"]), "inputs": d, "outputs": c, "cls": cls,
             "mode": mode, "precision": "double" if mode == "dup" else rng.choice(["double", "double", "single"]),
             "norm": 2.0 ** -40 if mode == "dup" else 0.0 if mode == "sing" else rng.choice([0.5, 1.0, 2.0, 8.0]),
             "w": [rng.choice([1.0, 4.0, 0.25]) for _ in range(c)] if cls == "wc" and rng.random() < 0.5 else None,
             "batch": rng.choice([1, 2, 3, 5, 1000])}
        if s["w"] and s["precision"] == "double" and mode == "exact" and rng.random() < 0.3:
            s["w"] = [rng.choice([1.0, 4.0, 2.0 ** 14, 2.0 ** -12]) for _ in range(c)]
        s["neurons"] = self._neurons(rng, s, L)
        ops = []
        n_ops = rng.randint(3, 14)
        files = 0
        cur, last = s["batch"], None
        for _ in range(n_ops):
            r = rng.random()
            if r < 0.38:
                n = rng.randint(s["outputs"] if cls else 1, 8 if s["outputs"] < 8 else 15)
                if cur == 1000 and s["precision"] == "double" and mode == "exact" and rng.random() < 0.1:
                    n = rng.choice(gen.BIG)
                if cls == "wc" and s["w"] is None and not last and cur == 1000 and s["precision"] == "double" and mode != "dup" and rng.random() < 0.4:
                    n = rng.choice(gen.BIG)
                if last and rng.random() < 0.4:
                    n = last
                last = n if n < 1000 else last
                X, T = rows(rng, s, n)
                op = {"op": "add", "X": X, "T": T, "via": "array", "reuse": rng.random() < 0.5, "order": rng.choice(ORDERS + (["one"] if kind == "HPELM" else [])),
                      "dtX": rng.choice(["f8", "f8", "f4", "i4", "i2"]), "dtT": rng.choice(["f8", "f8", "f4", "i4", "u1" if cls else "i1"])}
                if kind == "HPELM":
                    op["via"] = rng.choice(["array", "file", "file", "range", "async"])
                    if op["via"] in ("range", "async"):
                        a = rng.randrange(n)
                        op["istart"], op["icount"] = a, rng.choice([None, rng.randint(1, n - a), 99])
                    else:
                        op["istart"], op["icount"] = 0, None
                    if op["via"] != "array" and rng.random() < 0.25:
                        op["disk"] = True
                        files += 1
                    elif rng.random() < 0.1:
                        op["half"] = rng.choice(["fHH", "fHT"])      # one file name only: nothing is stored
                    if op["via"] in ("file", "range") and rng.random() < 0.15:
                        op["mem"] = rng.choice("XT")                 # one of the matrices in memory
            elif r < 0.48:
                op = {"op": "solve"}
            elif r < 0.55:
                op = {"op": "get"}
            elif r < 0.60:
                op = {"op": "set_own", "order": rng.choice(ORDERS), "int": rng.random() < 0.3}
            elif r < 0.66:
                X, T = rows(rng, s, rng.randint(s["outputs"] if cls else 1, 6 if s["outputs"] < 6 else 15))
                op = {"op": "merge", "X": X, "T": T, "proc": rng.random() < 0.5}
                if rng.random() < 0.5:
                    op = {"op": "twin", "X": X, "T": T, "first": rng.random() < 0.5}
            elif r < 0.71:
                op = {"op": "reset"}
            elif r < 0.76:
                op = {"op": "neurons", "neurons": self._neurons(rng, s, rng.randint(1, 2))}
            elif r < 0.83:
                op = {"op": "move", "corr": rng.random() < 0.7, "acc": rng.choice([None, "basic"]),
                      "bytes": rng.random() < 0.3}
            elif r < 0.88:
                op = {"op": "batch", "batch": rng.choice([1, 2, 3, 4, 7, 1000])}
            elif r < 0.94:
                op = {"op": "read", "what": rng.choice(["predict", "project", "error", "confusion", "str"])}
            elif r < 0.97:
                X, T = rows(rng, s, rng.randint(s["outputs"] if cls else 1, 8 if s["outputs"] < 8 else 15) if cur < 1000 or mode == "dup" or
                            s["precision"] == "single" or rng.random() < 0.8 else rng.choice(gen.BIG))
                op = {"op": "train", "X": X, "T": T, "cls": cls, "reuse": rng.random() < 0.3,
                      "batch": rng.choice([None, 1, 3]), "order": rng.choice(ORDERS + ["one"]),
                      "dtX": rng.choice(["f8", "f8", "f4", "i4", "i2"]), "dtT": rng.choice(["f8", "f8", "f4", "i4", "u1" if cls else "i1"])}
            else:
                op = {"op": "solve_corr"}
            cur = op.get("batch") or cur
            ops.append(op)
        if files:
            ops.append({"op": "solve_files"})
        ops.append({"op": "solve"})
        if mode == "dup":          # an explicit pseudo-inverse needs a larger norm
            if rng.random() < 0.7:
                s["acc"] = None
                for op in ops:
                    if op["op"] == "move":
                        op["acc"] = None
            else:
                s["norm"] = 2.0 ** -20
        s["ops"] = ops
        s["policy"] = gen.policy(rng)
        s["config"] = {"flock": rng.random() < 0.8, "pipe_cap": rng.choice([65536, 1])}
        return s

    @staticmethod
    def _neurons(rng, s, L):
        if s["mode"] == "nonlin":
            return gen.any_neurons(rng, s["inputs"], L)
        ns = gen.lin_neurons(rng, s["inputs"], L)
        if s["mode"] == "sing":    # without regularisation, a neuron that is always zero
            ns.insert(rng.randint(0, len(ns)), ["lin", [[0]] * s["inputs"], [0]])
        if s["mode"] == "dup":
            ns = ns + [copy.deepcopy(ns[0])]
        return ns

    def fault_plans(self, rng, scn, out):
        pts = [p for p in base.io_points(out, list(out.task_n)) if p[2] and p[2][0] in "XT" and p[1] in ("h5open:r", "h5list", "h5node", "h5read", "h5close")]
        return [([base.io_fault(rng, pts, 0)], None)] if pts and rng.random() < 0.5 else []

    # ------------------------------------------------------------------
    def body(self, scn, run, out):
        out.nontrivial_history = True
        run.k.hash.update(json.dumps(scn["ops"]).encode())
        S = {"neurons": list(scn["neurons"]), "HH": None, "HT": None, "wc": None if scn["w"] is None else np.array(scn["w"]),
             "B": None, "exact": scn["mode"] != "nonlin", "files": {}, "batch": scn["batch"]}
        single = scn["precision"] == "single"
        prec = "float32" if single else None
        box = {"seg": 0, "i": 0, "carry": None}
        ops = scn["ops"]
        bufs = {}

        def files_of(n, op):
            """data files of an operation: its own, or ones whose contents are replaced each time"""
            return [run.path("X.h5" if op.get("reuse") else "X%d.h5" % n), run.path("T.h5" if op.get("reuse") else "T%d.h5" % n)]

        def write(n, op):
            for fn, q in zip(files_of(n, op), "XT"):
                engine.write_h5(fn, gen.mat(op[q]), prec)

        def passed(op, q):
            """the array a user passes: its own, or one that is refilled each time"""
            A = array(op, q)
            if not op.get("reuse"):
                return A
            b = bufs.setdefault((q, A.shape, A.dtype.str, op.get("order")), A)
            b[...] = A
            return b

        for n, op in enumerate(ops):
            if op["op"] == "add" and op["via"] != "array" and not op.get("reuse"):
                write(n, op)

        def make(env, acc):
            kw = {"accelerator": "basic"} if acc == "basic" else {}
            m = getattr(env.hpelm, scn["kind"])(scn["inputs"], scn["outputs"], classification=scn["cls"] or "",
                                               w=scn["w"], norm=scn["norm"], precision=scn["precision"],
                                               batch=S["batch"], **kw)
            return m

        def add_neurons(m, ns):
            for f, W, B in gen.np_neurons(ns):
                m.add_neurons(W.shape[1], f, W, B)

        def corr(X, T):
            wc = S["wc"] if scn["cls"] == "wc" else None
            return R.corr(np.array(X, float), np.array(T, float), gen.np_neurons(S["neurons"]), wc)

        def weights(T):
            if scn["cls"] == "wc" and S["wc"] is None:
                w = R.class_weights(T)
                S["wc"] = w.astype(np.float32).astype(float) if single else w
            if scn["cls"] == "wc" and not np.all(np.isin(np.log2(S["wc"]) % 2, (0,))):
                S["exact"] = False

        def accumulate(X, T):
            L = sum(len(B) for _, _, B in S["neurons"])
            weights(T)
            dH, dT = corr(X, T)
            if S["HH"] is None:
                S["HH"], S["HT"] = np.eye(L) * scn["norm"], np.zeros((L, scn["outputs"]))
            S["HH"], S["HT"] = S["HH"] + dH, S["HT"] + dT

        def check_corr(m, what, pair=None):
            if S["HH"] is None:
                return
            HH, HT = pair if pair is not None else P_quiet(m.nnet.get_corr)
            tol = 1e-4 if single else 1e-9
            for n, a, b in (("HH", HH, S["HH"]), ("HT", HT, S["HT"])):
                a = np.asarray(a, float)
                ok = np.array_equal(a, b) if S["exact"] else P.eq(a, b, tol)
                if not ok:
                    out.bad("accumulation", "%s: %s is %s, expected %s" % (what, n, a.tolist(), b.tolist()))

        def check_B(B, HH, HT, what):
            B = np.asarray(B, float)
            if scn["mode"] == "dup":
                res = np.abs(HH @ B - HT).max() / max(1.0, np.abs(HT).max())
                ref = np.linalg.pinv(HH, rcond=1e-9) @ HT
                scale = max(1.0, np.abs(ref).max())
                ev = np.linalg.eigvalsh(HH)
                ev = ev[ev > 1e-6 * ev[-1]]
                if ev[-1] / ev[0] > 1e5:
                    return
                # with a vanishing norm the solution is that of least norm, up to rounding along the null space
                # (compared on the accumulated rows: elsewhere such a solution is not determined)
                if res > 1e-4 or not P.eq(HH @ B, HH @ ref, 1e-3) or np.abs(B).max() > 1e5 * scale:
                    out.bad("solution", "%s: weights %s do not solve the normal equations (residual %g)" % (what, B.tolist(), res))
                return
            if scn["mode"] == "sing":
                z = np.diag(HH) == 0
                if z.all():
                    return
                if np.abs(B[z]).max(initial=0) > (1e-4 if single else 1e-9) * max(1.0, np.abs(B).max()):
                    out.bad("solution", "%s: weights %s, a neuron that is always zero has a weight" % (what, B.tolist()))
                    return
                HH, HT, B = HH[~z][:, ~z], HT[~z], B[~z]
            if np.linalg.cond(HH) > (200 if single else 1e7):
                return
            ref = np.linalg.solve(HH, HT)
            if not P.eq(B, ref, 2e-3 if single else 1e-7):
                out.bad("solution", "%s: weights %s, ridge solution %s" % (what, B.tolist(), ref.tolist()))

        env_box = []

        def P_quiet(fn, *a):
            env = env_box[-1]
            env.k.quiet += 1
            try:
                return fn(*a)
            finally:
                env.k.quiet -= 1

        def step(env, m, n, op):
            what = "op %d %s" % (n, op["op"])
            o = op["op"]
            if o == "add":
                X, T = gen.mat(op["X"]), gen.mat(op["T"])
                if op["via"] == "array":
                    aX, aT = passed(op, "X"), passed(op, "T")
                    try:
                        m.add_data(aX, aT, **({op["half"]: env.path("no.h5")} if op.get("half") else {}))
                    finally:
                        if not (np.array_equal(aX, array(op, "X")) and np.array_equal(aT, array(op, "T"))):
                            out.bad("data-changed", "%s changed the data passed to it" % what)
                    accumulate(X, T)
                else:
                    a = op["istart"]
                    b = len(X) if op["icount"] is None else min(len(X), a + op["icount"])
                    kw = {} if op["icount"] is None else {"icount": op["icount"]}
                    if op.get("disk"):
                        kw["fHH"], kw["fHT"] = env.path("HH%d.h5" % S["gen"]), env.path("HT%d.h5" % S["gen"])
                        S["HH"] = S["HT"] = None
                    fn = m.add_data_async if op["via"] == "async" else m.add_data
                    if op.get("reuse"):
                        P_quiet(write, n, op)
                    fX, fT = files_of(n, op)
                    if op.get("half"):
                        kw[op["half"]] = env.path("no.h5")
                    fn(X if op.get("mem") == "X" else fX, T if op.get("mem") == "T" else fT,
                       istart=a, **kw)
                    accumulate(X[a:b], T[a:b])
                    if op.get("disk"):
                        f = S["files"].get(S["gen"])
                        L = S["HH"].shape[0]
                        base_ = np.eye(L) * scn["norm"]
                        if f is None:
                            f = (base_.copy(), np.zeros_like(S["HT"]))
                        S["files"][S["gen"]] = (f[0] + S["HH"] - base_, f[1] + S["HT"])
            elif o == "solve":
                if S["HH"] is not None:
                    m.nnet.solve()
                    check_B(m.nnet.get_B(), S["HH"], S["HT"], what)
            elif o == "solve_corr":
                if S["HH"] is not None:
                    HH, HT = m.nnet.get_corr()
                    check_B(m.nnet.solve_corr(HH, HT), S["HH"], S["HT"], what)
            elif o == "get":
                if S["HH"] is not None:
                    check_corr(m, what, m.nnet.get_corr())
            elif o == "set_own":
                if S["HH"] is not None:
                    HH, HT = m.nnet.get_corr()
                    if op.get("int") and np.all(HH == np.rint(HH)) and np.all(HT == np.rint(HT)):
                        HH, HT = HH.astype("i8"), HT.astype("i8")
                    HH, HT = gen.lay(HH, op.get("order")), gen.lay(HT, op.get("order"))
                    m.nnet.set_corr(HH, HT)
            elif o == "merge":
                # rows accumulated by another model of the same neurons are summed in
                X, T = np.array(op["X"], float), np.array(op["T"], float)
                if S["HH"] is None or scn["cls"] == "wc" and S["wc"] is None:
                    return
                weights(T)
                got = {}

                def other(e):
                    m2 = make(e, None)
                    if S["wc"] is not None:
                        m2.wc = np.array(S["wc"], m2.precision)
                    add_neurons(m2, S["neurons"])
                    m2.add_data(X, T)
                    got["c"] = m2.nnet.get_corr()
                if op["proc"]:
                    p = run.main("h%d" % n, other)
                    env.k.block(lambda: p.ended, None, "helper model")
                    if p.error:
                        out.bad("proc-error", "%s: %s" % (what, p.error))
                        return
                else:
                    other(env)
                dH, dT = got["c"]
                HH, HT = m.nnet.get_corr()
                dH = np.array(dH)
                dH[np.diag_indices_from(dH)] -= m.nnet.norm
                m.nnet.set_corr(HH + dH, HT + dT)
                a, b = corr(X, T)
                if scn["mode"] == "nonlin" or not S["exact"]:
                    S["exact"] = False
                S["HH"], S["HT"] = S["HH"] + a, S["HT"] + b
            elif o == "twin":
                # another live model continues from the same accumulation; the two stay independent
                X, T = np.array(op["X"], float), np.array(op["T"], float)
                if S["HH"] is None or scn["cls"] == "wc" and S["wc"] is None:
                    return
                m2 = make(env, op.get("acc"))
                if S["wc"] is not None:
                    m2.wc = np.array(S["wc"], m2.precision)
                add_neurons(m2, S["neurons"])
                m2.nnet.set_corr(*m.nnet.get_corr())
                a, b = corr(X, T)
                if op["first"]:        # the first model gets the data, the twin is dropped
                    m.add_data(X, T)
                    check_corr(m2, what + " (twin)")
                    S["HH"], S["HT"] = S["HH"] + a, S["HT"] + b
                    check_corr(m, what)
                else:
                    m2.add_data(X, T)
                    check_corr(m, what)
                    H0 = (S["HH"], S["HT"])
                    S["HH"], S["HT"] = S["HH"] + a, S["HT"] + b
                    check_corr(m2, what + " (twin)")
                    S["HH"], S["HT"] = H0
            elif o == "reset":
                m.nnet.reset()
                S["HH"] = S["HT"] = None
            elif o == "neurons":
                add_neurons(m, op["neurons"])
                S["neurons"] = S["neurons"] + op["neurons"]
                S["HH"] = S["HT"] = None
                S["gen"] += 1
            elif o == "batch":
                m.batch = S["batch"] = op["batch"]
            elif o == "read":
                X = np.array(gen_probe(scn), float)
                T = np.array(op.get("T") or np.eye(scn["outputs"])[np.arange(len(X)) % scn["outputs"]])
                if op["what"] == "project":
                    m.project(X)
                elif op["what"] == "str":
                    str(m)
                elif op["what"] == "predict" and m.nnet.B is not None:
                    m.predict(X)
                elif op["what"] == "error" and (scn["cls"] != "wc" or m.wc is not None):
                    m.error(T, T * 0.5)
                elif op["what"] == "confusion" and scn["cls"]:
                    m.confusion(T, T)
            elif o == "train":
                kw = {"batch": op["batch"]} if op["batch"] else {}
                if op["batch"]:
                    S["batch"] = op["batch"]
                m.train(passed(op, "X"), passed(op, "T"), *([op["cls"]] if op["cls"] else []), **kw)
                S["HH"] = S["HT"] = S["wc"] = None
                accumulate(gen.mat(op["X"]), gen.mat(op["T"]))
                check_B(m.nnet.get_B(), S["HH"], S["HT"], what)
            elif o == "solve_files":
                f = S["files"].get(S["gen"])
                if f is not None:
                    m.solve_corr(env.path("HH%d.h5" % S["gen"]), env.path("HT%d.h5" % S["gen"]))
                    check_B(m.nnet.get_B(), f[0], f[1], what)

        S["gen"] = 0

        def segment(env):
            env_box.append(env)
            c = box["carry"]
            if c is None:
                m = make(env, scn["acc"])
                add_neurons(m, scn["neurons"])
            else:
                m = make(env, c["acc"])
                if c["bytes"] is not None:
                    m.loads(c["bytes"])
                else:
                    m.load(env.path("m.pkl"))
                if c["corr"] is not None:
                    m.nnet.set_corr(*c["corr"])
            while box["i"] < len(ops):
                n, op = box["i"], ops[box["i"]]
                box["i"] += 1
                if op["op"] == "move":
                    cc = None
                    if op["corr"] and S["HH"] is not None:
                        HH, HT = m.nnet.get_corr()
                        cc = (np.array(HH), np.array(HT))
                    else:
                        S["HH"] = S["HT"] = None
                    by = None
                    if op["bytes"]:
                        by = m.dumps()
                    else:
                        m.save(env.path("m.pkl"))
                    box["carry"] = {"acc": op["acc"], "corr": cc, "bytes": by}
                    box["seg"] += 1
                    run.main("s%d" % box["seg"], segment)
                    return
                try:
                    step(env, m, n, op)
                except Exception:
                    if op["op"] != "add" or not any(f["_fired"] for f in env.k.faults) or box.get("failed") == n:
                        raise
                    # an injected read error: drop what was accumulated, and repeat the call
                    box["failed"] = n
                    m.nnet.reset()
                    S["HH"] = S["HT"] = None
                    step(env, m, n, op)
                if out.violations:
                    return
            check_corr(m, "at the end")

        run.main("s0", segment)
        k = run.go()
        if k.stuck:
            out.bad("stuck", k.stuck)
        for p in k.procs:
            if p.error and not ("/" in p.name and any(f["_fired"] for f in k.faults)):
                out.bad("proc-error", "%s (before op %d): %s" % (p.name, box["i"], p.error))

    def shrink(self, scn):
        for n in range(len(scn["ops"])):
            s = copy.deepcopy(scn)
            s["ops"].pop(n)
            # data files are numbered by operation
            yield s
        for key, val in (("acc", None), ("precision", "double"), ("batch", 1000)):
            if scn[key] != val:
                s = copy.deepcopy(scn)
                s[key] = val
                yield s


def gen_probe(scn):
    d = scn["inputs"]
    return [[(i * 3 + j * 5) % 7 - 3 for j in range(d)] for i in range(5)]


PROP = C09()
