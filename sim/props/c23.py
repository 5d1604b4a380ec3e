"""C23 Calls never change what they are given, and models share no memory with the caller."""
import copy
import json
import os
import signal
import warnings

import numpy as np

from .. import engine, gen, kernel as K
from . import base, persist as P

LAYOUTS = ["C", "C", "C", "F", "step", "neg", "ro", "view"]
FUNCS = ["lin", "sigm", "tanh", "tanh", "rbf_l1", "rbf_l2", "rbf_linf", "ufunc:sin"]


class C23(base.Prop):
    id = "C23"
    rule = ("1 run = a simulated process makes 2-7 calls on ELM / HPELM models (construction with class weights, adding neurons, every kind "
            "of training, adding data, prediction, projection, errors, confusion, selection and solving from files, conversion, "
            "normalisation with given parameters) with arrays of any type and layout (read-only, views of larger arrays) or files; "
            "MemoryError, KeyboardInterrupt and storage errors at any point. After each call every array and file it was given must be "
            "bit-identical, process-wide settings too, while it runs a second thread compares the arrays at random instants; then the "
            "arrays passed and returned are overwritten, and the model must not change. Non-trivial: a history of calls.")
    real = ["hpelm.elm, hpelm.hp_elm, hpelm.mss_*, hpelm.nnets, hpelm.modules", "PyTables/HDF5 (core driver)", "numpy/scipy"]
    stub = ["delivery of interrupts and memory errors (at source lines)", "thread scheduler", "disk image exchange", "multiprocessing", "clock"]
    assumptions = ["arrays given as the place for results (fY, fH) are outputs: their rows for the requested range may change",
                   "accumulated matrices and weights read from model.nnet are the model's own"]

    def gen(self, rng, i):
        cls = rng.choice(["", "", "c", "wc", "ml"])
        hp = rng.random() < 0.5
        d, c = rng.randint(1, 3), 11 if rng.random() < 0.07 else rng.randint(2, 3) if cls else rng.randint(1, 3)
        s = {"kind": "HPELM" if hp else "ELM", "acc": rng.choice([None, None, "basic"]), "inputs": d, "outputs": c, "cls": cls,
             "w": cls == "wc" and rng.random() < 0.5, "batch": rng.choice([2, 3, 5, 100]), "N": rng.choice([9, 12, 16]), "norm": rng.choice([1.0, 1.0, None]), "nan": rng.choice([""] * 9 + ["X", "T"]),
             "precision": rng.choice(["double", "double", "single"]), "rs": rng.getrandbits(30), "ops": [],
             "policy": gen.policy(rng, ["seq", "rw", "rw", "rtb"]), "config": {}, "watch": rng.random() < 0.6}
        ops = ["neurons", "train", "train", "train", "add", "add", "predict", "project", "error", "error"] + (["confusion"] * 2 if cls else []) + (
            ["addf", "valid", "valid", "solve", "outarray", "outarray", "async"] if hp else ["train", "train"]) + ["make", "normalize"]
        s["ops"].append({"op": "neurons", "f": rng.choice(FUNCS), "n": rng.randint(3, 6), "WB": rng.random() < 0.7})
        for _ in range(rng.randint(2, 7)):
            o = {"op": rng.choice(ops), "lay": [rng.choice(LAYOUTS) for _ in range(4)],
                 "dt": [rng.choice(["f8", "f8", "f8", "f4", "i4"]) for _ in range(2)]}
            if hp:
                o["src"] = [rng.choice(["array", "array", "file"]) for _ in range(2)]
                if o["op"] == "async":
                    o["src"] = ["file", "file"]
            if o["op"] == "neurons":
                o.update(f=rng.choice(FUNCS), n=rng.randint(1, 3), WB=rng.random() < 0.7)
            if o["op"] == "train":
                o["mss"] = rng.choice([None, "V", "V", "CV", "CV", "LOO"]) if not hp else None
                o["OP"] = bool(o["mss"]) and rng.random() < 0.4
                o["w"] = cls == "wc" and rng.random() < 0.5
            if o["op"] == "valid":
                o["steps"] = rng.choice(["int", "list", "array", "array"])
            if o["op"] == "normalize":
                o["zero"] = rng.random() < 0.5
            if o["op"] == "outarray":
                o["more"] = rng.choice([0, 0, 2])
                o["istart"] = rng.choice([0, 0, 3])
                o["proj"] = rng.random() < 0.5
            s["ops"] += [o] * (2 if rng.random() < 0.25 else 1)
        return s

    def fault_plans(self, rng, scn, out):
        plans = []
        spans = [x for x in out.spans if x[1] > x[0]]
        pts = [p for p in base.io_points(out, ["u"])]
        for _ in range(4):
            if not spans:
                break
            if pts and rng.random() < 0.25:
                plans.append(([base.io_fault(rng, pts, 0)], None))
                continue
            a, b = rng.choice(spans)
            n = rng.randint(a, b)
            plans.append(([{"task": "u", "at": ["step", n], "kind": rng.choice(["mem", "kbd"])}], None))
        return plans

    def body(self, scn, run, out):
        rs = np.random.RandomState(scn["rs"] % (2 ** 31))
        N, d, c = scn["N"], scn["inputs"], scn["outputs"]
        k = run.k
        out.spans = []
        box = {"live": [], "old": [], "log": [], "what": ""}
        dt = "float32" if scn["precision"] == "single" else "float64"

        def targets(n):
            if scn["cls"] in ("c", "wc"):
                return np.eye(c)[np.arange(n) % c][rs.permutation(n)]
            if scn["cls"] == "ml":
                return (rs.rand(n, c) > 0.5) * 1.0
            return rs.randn(n, c) * 3
        M = {"X": rs.randn(N, d) * 3, "T": targets(N), "Xv": rs.randn(8, d) * 3, "Tv": targets(8)}
        M["Y"] = M["T"] * 0.3 + rs.randn(N, c) * 0.2
        if scn["nan"]:
            M[scn["nan"]][2, 0] = np.nan
        for q in M:
            engine.write_h5(run.path(q + ".h5"), M[q], dt, attrs=True)
        given = [q + ".h5" for q in M] + ["X.txt"]
        if any(o["op"] in ("valid", "solve") for o in scn["ops"]):
            for L in range(1, 1 + sum(o["n"] for o in scn["ops"] if o["op"] == "neurons")):
                G = rs.randn(L + 3, L)
                engine.write_h5(run.path("HH%d.h5" % L), G.T.dot(G) + np.eye(L), dt)
                engine.write_h5(run.path("HT%d.h5" % L), rs.randn(L, c), dt)
                given += ["HH%d.h5" % L, "HT%d.h5" % L]
        for i in range(len(scn["ops"])):
            engine.write_h5(run.path("Z%d.h5" % i), M["X"], dt, attrs=True)
        with open(run.path("X.txt"), "w") as f:
            for r in np.nan_to_num(M["X"]).astype(int).tolist():
                f.write(" ".join(map(str, r)) + "\n")

        def lay(A, o):
            if o == "view":                    # the caller's array is larger
                Z = np.full((A.shape[0] + 2, A.shape[1] + 1) if A.ndim == 2 else (A.shape[0] + 2,), 7, A.dtype)
                V = Z[1:-1, :-1] if A.ndim == 2 else Z[1:-1]
                V[...] = A
                return V
            if A.ndim == 1 and o in ("F", "step", "neg"):
                return A.copy()
            return gen.lay(A.copy(), o)

        def give(A, o, j=0):
            A = lay(np.asarray(A), (o.get("lay") or ["C"] * 4)[j % 4])
            root = A.base if isinstance(A.base, np.ndarray) else A
            box["live"].append((A, root, root.copy()))
            return A

        def mat(env, o, q, j):
            if (o.get("src") or ["array"] * 2)[j % 2] == "file":
                box["files"].append(q + ".h5")
                return env.path(q + ".h5")
            t = o["dt"][j % 2] if "dt" in o else "f8"
            A = M[q].astype(t if q != "Y" or t[0] == "f" else "f8")
            return give(A, o, j)

        def changed():
            for A, root, C in box["old"]:
                if root.tobytes() != C.tobytes():
                    return "an array of an earlier call was %s, is %s" % (C.tolist(), root.tolist())
            for A, root, C in box["live"]:
                if root.shape != C.shape or root.tobytes() != C.tobytes():
                    return "an array it was given was %s, is %s" % (C.tolist(), root.tolist())
            return None

        def call(env, o):
            op, m = o["op"], box.get("m")
            if op == "new":
                kw = {"accelerator": "basic"} if scn["acc"] == "basic" else {}
                if scn["w"]:
                    kw["w"] = give(np.linspace(0.5, 2.5, c), o)
                box["m"] = getattr(env.hpelm, scn["kind"])(d, c, classification=scn["cls"], batch=scn["batch"], norm=scn["norm"],
                                                           precision=scn["precision"], **kw)
                return None
            L = m.nnet.L or 0
            if op == "neurons":
                n = o["n"] if o["f"] != "lin" else min(o["n"], d)
                a = []
                if o["WB"]:
                    tp = np.float32 if scn["precision"] == "single" else np.float64
                    a = [give(rs.randn(d, n).astype(tp), o, 0), give((rs.rand(n) + 0.5).astype(tp), o, 1)]
                m.add_neurons(n, gen.UFUNCS.get(o["f"], o["f"]), *a)
                return None
            if op == "train":
                a, kw = [scn["cls"]] if scn["cls"] else [], {}
                if o["mss"]:
                    a.append(o["mss"])
                    if o["OP"]:
                        a.append("OP")
                if o["mss"] == "V":
                    kw.update(Xv=mat(env, o, "Xv", 2), Tv=mat(env, o, "Tv", 3))
                if o["mss"] == "CV":
                    kw["k"] = 3
                if o["w"]:
                    kw["w"] = give(np.linspace(0.5, 2.5, c), o, 2)
                return m.train(mat(env, o, "X", 0), mat(env, o, "T", 1), *a, **kw)
            if op == "async":
                m.train_async(mat(env, o, "X", 0), mat(env, o, "T", 1), *([scn["cls"]] if scn["cls"] else []))
                return None
            if op == "add":
                return m.add_data(mat(env, o, "X", 0), mat(env, o, "T", 1))
            if op == "addf":
                return m.add_data(mat(env, o, "X", 0), mat(env, o, "T", 1), fHH=env.path("aHH%d.h5" % L), fHT=env.path("aHT%d.h5" % L))
            if op in ("predict", "project"):
                return getattr(m, op)(mat(env, o, "X", 0))
            if op == "outarray":
                i0 = o["istart"]
                R = np.full((N - i0 + (o["more"] if o["proj"] else 0), L if o["proj"] else c), 5.0)
                getattr(m, "project" if o["proj"] else "predict")(mat(env, o, "X", 0), R, istart=i0)
                if not np.all(R[N - i0:] == 5.0):
                    out.bad("changed", "rows of the result array beyond the range were overwritten: %s" % R.tolist())
                return R
            if op in ("error", "confusion"):
                return getattr(m, op)(mat(env, o, "T", 0), mat(env, o, "Y", 1))
            if op in ("valid", "solve"):
                box["files"] += ["HH%d.h5" % L, "HT%d.h5" % L]
                a = [env.path(x) for x in box["files"][-2:]]
                if op == "solve":
                    return m.solve_corr(*a)
                st = {"int": 3, "list": [L, 1, max(1, L // 2)], "array": give(np.array([L, 1, max(1, L // 2)]), o, 2)}[o["steps"]]
                ref = copy.deepcopy(st)
                if o["steps"] != "array":
                    box["live"].pop()
                r = m.validation_corr(*a, mat(env, o, "Xv", 0), mat(env, o, "Tv", 1), steps=st)
                if o["steps"] == "list" and st != ref:
                    out.bad("changed", "the list of steps was %s, is %s" % (ref, st))
                return list(r)
            mods = env.proc.modules["hpelm.modules"]
            if op == "make":
                if scn["rs"] % 2:
                    box["files"].append("X.txt")
                    return mods.make_hdf5(env.path("X.txt"), env.path("C.h5"))
                return mods.make_hdf5(mat(env, dict(o, src=None), "X", 0), env.path("C.h5"))
            if op == "normalize":
                s = np.linspace(0.5, 2, d)
                if o["zero"]:
                    s[0] = 0
                return list(mods.normalize_hdf5(env.path("Z%d.h5" % box["i"]), give(np.linspace(-1, 1, d), o, 0), give(s, o, 1)))
            raise AssertionError(op)

        kept = {}

        def keep(names):
            for n in names:
                with open(os.path.join(run.dir, n), "rb") as f:
                    kept[n] = f.read()

        def check_files(env):
            for n in sorted(kept):
                try:
                    with open(os.path.join(run.dir, n), "rb") as f:
                        b = f.read()
                except OSError as e:
                    return "%s: %r" % (n, e)
                if b != kept[n]:
                    return "the input file %s has other contents" % n
            return None

        def settings():
            s = np.random.get_state()
            po = np.get_printoptions()
            return {"numpy error handling": np.geterr(), "print options": {x: str(po[x]) for x in po},
                    "random state": (s[1].tobytes(), s[2], s[3]), "working directory": os.getcwd(),
                    "environment": dict(os.environ), "warning filters": list(warnings.filters),
                    "handling of interrupts": signal.getsignal(signal.SIGINT)}

        def user(env):
            k.armed = False
            P.quiet(env, keep, given)
            np.random.seed(scn["rs"] % 10007)
            t = k.current
            for i, o in enumerate([{"op": "new"}] + scn["ops"]):
                if o["op"] != "new" and "m" not in box:
                    break
                box["live"], box["files"] = [], []
                box["i"] = i - 1
                box["what"] = json.dumps(o)
                before = settings()
                n0, res, err = t.n, None, None
                try:
                    k.armed = True
                    res = call(env, o)
                except K.SimKilled:
                    raise
                except BaseException as e:
                    err = "%s: %s" % (type(e).__name__, str(e)[:100])
                finally:
                    k.armed = False
                    out.spans.append((n0 + 1, t.n))
                box["log"].append([i, err and err.split(":")[0]])
                what = "%s %s" % (box["what"], "failed (%s)" % err if err else "returned")
                e = changed() or P.quiet(env, check_files, env)[0]
                if e:
                    out.bad("changed", "%s; %s" % (what, e))
                    return
                now = settings()
                for q in now:
                    if now[q] != before[q] and not (q == "random state" and (o["op"] == "neurons" or o.get("mss"))):
                        out.bad("settings", "%s and changed the %s of the process: %s -> %s" % (
                            what, q, str(before[q])[:300], str(now[q])[:300]))
                        return
                if "m" not in box:
                    continue
                s0, e0 = P.quiet(env, P.snap, box["m"])
                live, box["live"] = box["live"], []
                for A, root, _ in live:
                    if not root.flags.writeable:
                        root.flags.writeable = True
                    root[...] = 77
                for r in flat(res):
                    if r.flags.writeable:
                        r[...] = 78
                box["old"] += [(r, r, r.copy()) for r in flat(res)] + [(A, root, root.copy()) for A, root, _ in live]
                s1, e1 = P.quiet(env, P.snap, box["m"])
                if e0 or e1:
                    if e0 != e1:
                        out.bad("shared", "%s; then its arrays were overwritten, and the model cannot be read: %s" % (what, e1))
                        return
                    continue
                bad = [q for q in s0 if not same(s0[q], s1[q])]
                if bad:
                    out.bad("shared", "%s; the caller then overwrote the arrays it passed and got, and %s of the model changed: %s -> %s" % (
                        what, bad, s0[bad[0]], s1[bad[0]]))
                    return
            box["done"] = True

        u = run.main("u", user)
        if scn["watch"]:
            ws = np.random.RandomState(scn["rs"] % 9973)
            pauses = [float(10.0 ** ws.uniform(-4.5, -2)) for _ in range(300)]

            def watcher(env):
                for p in pauses:
                    k.block(lambda: box.get("done") or u.ended, k.now + p, "watch")
                    if box.get("done") or u.ended or out.violations:
                        return
                    e = changed()
                    if e:
                        out.bad("changed", "%s; while it was running %s" % (box["what"], e))
                        return
            run.thread(u, "w", watcher)
        run.go()
        if k.stuck:
            out.bad("stuck", k.stuck)
        for p in k.procs:
            if p.error and "/" not in p.name:
                out.bad("proc-error", "%s: %s" % (p.name, p.error))
        out.nontrivial_history = True
        k.hash.update(json.dumps([scn["ops"], scn["batch"], N, box["log"]]).encode())

    def shrink(self, scn):
        for i in range(1, len(scn["ops"])):
            s = copy.deepcopy(scn)
            del s["ops"][i]
            yield s
        for key, val in (("watch", False), ("nan", ""), ("precision", "double"), ("acc", None)):
            if scn[key] != val:
                s = copy.deepcopy(scn)
                s[key] = val
                yield s


def same(a, b):
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        return a.shape == b.shape and a.tobytes() == b.tobytes()
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(p, q) for p, q in zip(a, b))
    return type(a) is type(b) and (a is b or a == b or a != a and b != b)


def flat(r):
    if isinstance(r, np.ndarray):
        return [r]
    if isinstance(r, (list, tuple)):
        return [x for q in r for x in flat(q)]
    return []


PROP = C23()
