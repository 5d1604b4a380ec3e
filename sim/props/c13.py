"""C13 Out-of-core batched operations equal whole-matrix results or fail loudly."""
import copy
import json

import numpy as np

from .. import engine, gen, kernel as K, refmodel as R
from . import base, persist as P
from .c11 import errors


def confusion(T, Y, cls):
    c = T.shape[1]
    if cls == "ml":
        return ((T > 0.5) * 1.0).T @ ((Y > 0.5) * 1.0)
    C = np.zeros((c, c))
    for a, b in zip(T.argmax(1), Y.argmax(1)):
        C[a, b] += 1
    return C


DT = ["f8", "f8", "f4", "i4", "i2"]


class C13(base.Prop):
    id = "C13"
    rule = ("1 run = one simulated process makes 1-4 calls of predict / project / error / confusion of an HPELM (or ELM with "
            "arrays) over row ranges, from HDF5 files and arrays of several types and chunk shapes, into new or existing files, given "
            "or new arrays; at a file output another process opens the file at once. Faults: any open, read, write, create, "
            "attribute, flush, close error, once or lasting, MemoryError at any line; then the call is repeated. Non-trivial: "
            "distinct scenario or fired fault.")
    real = ["hpelm.hp_elm, hpelm.elm, hpelm.modules.hdf5_tools", "PyTables/HDF5 (core driver)", "numpy/scipy"]
    stub = ["disk image exchange and HDF5 file locks", "disk errors", "process scheduler", "clock"]
    assumptions = ["non-empty row ranges"]

    def gen(self, rng, i):
        d = gen.size(rng, 1, 3, [8, 20, 33])
        cls = rng.choice(["", "", "c", "wc", "ml"])
        c = gen.size(rng, 2, 3, [5, 12]) if cls else gen.size(rng, 1, 3, [5, 12])
        N = rng.choice([1, 2, 5, 8, 13, 20])
        s = {"inputs": d, "outputs": c, "cls": cls, "w": ([1.0, 2.5, 0.25] * 4)[:c] if cls == "wc" else None,
             "acc": rng.choice([None, None, "basic"]), "precision": rng.choice(["double", "double", "single"]),
             "batch": rng.choice([1, 2, 3, 4, 5, 8, 13, 100]), "neurons": gen.any_neurons(rng, d, gen.size(rng, 1, 6, [12, 40, 130])),
             "N": N, "rs": rng.getrandbits(30), "xdt": rng.choice(DT), "chunk": rng.choice([None, 1, 3]),
             "tdt": rng.choice(["f8", "f4", "i4"] if cls else ["f8", "f4"]), "config": {"flock": rng.random() < 0.8},
             "ops": [], "policy": gen.policy(rng, ["seq", "rtb", "rw"])}
        if rng.random() < 0.025:                   # around the default batch size
            N = s["N"] = rng.choice(gen.BIG)
            s["batch"], s["chunk"] = rng.choice([1000, 1000, 700, 5000]), None
        elm, lay = rng.choice([0.06, 0.06, 0.06, 0.06, 0.06, 0.06, 1]), rng.choice(gen.ORDERS)
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            what = rng.choice(["predict", "predict", "project", "error", "confusion" if cls else "error"])
            a = rng.randrange(N) if rng.random() < 0.6 else 0
            o = {"op": what, "src": rng.choice(["file", "file", "array"]), "src2": rng.choice(["file", "array"]),
                 "istart": a, "icount": rng.choice([None, N - a, rng.randint(1, N - a), N + 5])}
            if what in ("predict", "project"):
                o["dst"] = rng.choice(["none", "file", "file", "array", "bigarray"])
                o["over"] = rng.choice(["", "", "same", "other", "garbage"])
                o["fn"] = rng.choice(["Y0.h5", "Y0.h5", "Y1.h5"])
                o["bufo"] = rng.choice(["C", "C", "F", "step", "neg"])
            o["order"] = rng.choice(gen.ORDERS + ["ro", "one"]) if rng.random() < 0.5 else lay
            if rng.random() < elm:
                o["cls"] = "ELM"
                o["src"] = o["src2"] = "array"
                o["dst"] = "none"
                o["istart"], o["icount"] = 0, None
            o["ver"] = rng.choice([0, 0, 1])       # the data changes in place: same names, same arrays, other values
            o["reuse"] = rng.random() < 0.5
            if rng.random() < 0.2:
                o["batch"] = rng.choice([1, 2, 7, 50] if N < 100 else [600, 1000, 2500])
            s["ops"].append(o)
        return s

    def fault_plans(self, rng, scn, out):
        plans = []
        pts = [p for p in base.io_points(out, ["u"])]
        for _ in range(4):
            if not pts:
                break
            f = [base.io_fault(rng, pts, 0.25)]
            if rng.random() < 0.2:
                f.append(base.io_fault(rng, pts, 0.25))
            plans.append((f, None))
        plans.append(([{"task": "u", "at": ["step", rng.randint(1, max(2, out.task_n.get("u", 2)))], "kind": "mem"}], None))
        return plans

    def body(self, scn, run, out):
        rs = np.random.RandomState(scn["rs"] % (2 ** 31))
        N, d, c = scn["N"], scn["inputs"], scn["outputs"]
        ns = gen.np_neurons(scn["neurons"])
        mneu = R.merge_neurons(ns)
        L = sum(len(B) for _, _, B in mneu)
        Bw = np.round(rs.randn(L, c), 3)

        def data(rs):
            X = np.round(rs.randn(N, d) * 2, 2)
            if scn["xdt"].startswith("i"):
                X = np.round(X)
            if scn["cls"] in ("c", "wc"):
                T = np.eye(c)[rs.randint(0, c, N)]
            elif scn["cls"] == "ml":
                T = (rs.rand(N, c) > 0.5) * 1.0
            else:
                T = np.round(rs.randn(N, c), 3)
            T = T.astype(scn["tdt"])
            Y0 = np.round(T.astype("f8") * 0.6 + 0.5 * rs.randn(N, c), 3) + 1e-4 * np.arange(c)
            X = X.astype(scn["xdt"])
            H = R.hidden(X, ns)
            return {"X": X, "T": T, "P": Y0, "H": H, "Y": H @ Bw}
        V = [data(rs), data(rs)]
        bufs = {}                      # arrays that are refilled and passed again
        single = scn["precision"] == "single"
        tol = 1e-4 if single else 1e-9
        if scn["xdt"] == "f4" and not single:
            tol = 1e-9
        ch = scn["chunk"]
        box = {"log": [], "ver": None}

        def switch(v):
            """the data of version v is in the files and arrays from now on"""
            if box["ver"] == v:
                return
            box["ver"] = v
            for q in "XTP":
                A = V[v][q]
                engine.write_h5(run.path(q + ".h5"), A, None, (min(ch, N), A.shape[1]) if ch else None)
            for (q, order), (mine, a) in bufs.items():
                a[...] = V[v][q].reshape(a.shape)

        def passed(o, q):
            """the array that a user passes for matrix q"""
            order = o.get("order")
            if not o.get("reuse"):
                return gen.lay(V[box["ver"]][q], order)
            if order == "ro":
                order = "C"
            if (q, order) not in bufs:
                mine = V[box["ver"]][q].copy()
                bufs[q, order] = (mine, gen.lay(mine, order))
            return bufs[q, order][1]

        def model(env):
            ms = {}
            for kind in ("HPELM", "ELM"):
                kw = {"accelerator": "basic"} if scn["acc"] == "basic" else {}
                m = getattr(env.hpelm, kind)(d, c, classification=scn["cls"], w=scn["w"], batch=scn["batch"],
                                             precision=scn["precision"], norm=1.0, **kw)
                for f, W, B in ns:
                    m.add_neurons(W.shape[1], f, W, B)
                m.nnet.set_B(Bw.copy())
                ms[kind] = m
            return ms

        def prepare(env, o):
            """output file that is already there"""
            if o.get("dst") != "file":
                return
            p = run.path(o["fn"])
            if o["over"] == "same":
                engine.write_h5(p, np.full((self.rows(o, N), c if o["op"] == "predict" else L), 7.0))
            elif o["over"] == "other":
                engine.write_h5(p, np.full((3, 2), 7.0))
            elif o["over"] == "garbage":
                with open(p, "wb") as f:
                    f.write(b"not a file" * 50)

        def call(env, m, o):
            kw = {}
            if o["istart"] or o["icount"] is not None:
                kw["istart"] = o["istart"]
                if o["icount"] is not None:
                    kw["icount"] = o["icount"]
            m.batch = o.get("batch", scn["batch"])
            if o["op"] in ("predict", "project"):
                src = run.path("X.h5") if o["src"] == "file" else passed(o, "X")
                n, w = self.rows(o, N), c if o["op"] == "predict" else L
                dst = o["dst"]
                if dst == "none":
                    return getattr(m, o["op"])(src, **kw), None
                if dst == "file":
                    return getattr(m, o["op"])(src, run.path(o["fn"]), **kw), run.path(o["fn"])
                buf = gen.lay(np.full((n + (3 if dst == "bigarray" else 0), w), 9.0), o.get("bufo"))
                getattr(m, o["op"])(src, buf, **kw)
                if not np.array_equal(buf[n:], np.full((len(buf) - n, w), 9.0)):
                    return "rows after the range were written", None
                return buf[:n], None
            a = run.path("T.h5") if o["src"] == "file" else passed(o, "T")
            b = run.path("P.h5") if o["src2"] == "file" else passed(o, "P")
            if o["op"] == "error":
                return m.error(a, b, **kw), None
            return m.confusion(a, b), None

        def expect(o):
            sl = slice(o["istart"], o["istart"] + self.rows(o, N))
            v = V[box["ver"]]
            if o["op"] == "predict":
                return v["Y"][sl]
            if o["op"] == "project":
                return v["H"][sl]
            if o["op"] == "error":
                return errors(v["T"].astype("f8")[sl], v["P"][sl], scn["cls"] or None, scn["w"])
            return confusion(v["T"], v["P"], scn["cls"])

        def check(env, o, res, path, i):
            e = expect(o)
            if isinstance(res, str):
                return res
            if path is not None:
                if res is not None:
                    return "returned %r" % (res,)
                res, err = P.quiet(env, lambda: engine.read_h5(path))[0]
                if res is None:
                    return "output file: %s" % err
                box["open"] = path
                env.k.block(lambda: box.get("seen") == i, None, "reader")
                if box["seen_val"][1]:
                    return "another process cannot read the output file right after the call: %s" % box["seen_val"][1]
                if not P.eq(box["seen_val"][0], e, tol):
                    return "another process reads different results"
            if o["op"] == "error":
                return None if np.ndim(res) == 0 and abs(float(res) - e) <= 1e-9 * max(1, abs(e)) + (1e-5 if scn["tdt"] == "f4" else 0) \
                    else "error is %r, expected %r" % (res, e)
            if res is None or np.asarray(res).shape != e.shape or not P.eq(res, e, tol):
                return "result %s, expected %s" % (None if res is None else np.asarray(res).tolist(), e.tolist())
            return None

        def user(env):
            k = env.k
            k.armed = False
            ms = model(env)
            keep = [{q: A.copy() for q, A in v.items()} for v in V]
            for i, o in enumerate(scn["ops"]):
                P.quiet(env, switch, o.get("ver", 0))
                P.quiet(env, prepare, env, o)
                m = ms[o.get("cls", "HPELM")]
                for attempt in (0, 1, 2):
                    ev = sum(len(f.get("_evs", ())) for f in k.faults)
                    k.armed = attempt == 0 or (attempt == 1 and len(k.faults) > 1)
                    try:
                        res, path = call(env, m, o)
                    except K.SimKilled:
                        raise
                    except Exception as e:
                        k.armed = False
                        hit = sum(len(f.get("_evs", ())) for f in k.faults) > ev
                        box["log"].append([i, attempt, type(e).__name__])
                        if not hit and any(f["kind"] == "mem" and f["_fired"] for f in k.faults):
                            return      # nothing is promised about memory errors but no wrong results
                        if not hit:
                            out.bad("retry" if attempt else "failed", "%s %s without a fault: %s: %s" % (
                                o["op"], "repeated after a failure failed" if attempt else "failed", type(e).__name__, e))
                            return
                        continue
                    finally:
                        k.armed = False
                    box["i"] = i
                    if not all(np.array_equal(a[q], b[q]) for a, b in zip(keep, V) for q in "XTP") or not all(
                            np.array_equal(a, V[box["ver"]][q].reshape(a.shape)) for (q, _), (_, a) in bufs.items()):
                        out.bad("data-changed", "%s changed the data passed to it" % o["op"])
                        return
                    r = check(env, o, res, path, i)
                    if r:
                        out.bad("wrong", "%s (%s, attempt %d): %s" % (o["op"], json.dumps(o), attempt, r))
                        return
                    break

        def reader(env):
            import tables
            u = box["u"]
            while True:
                env.k.block(lambda: u.ended or ("open" in box), None, "wait")
                if u.ended:
                    return
                path = box.pop("open")
                try:
                    f = tables.open_file(path, "r")
                    node = None
                    for node in f.walk_nodes():
                        pass
                    v = (node[:], None)
                    f.close()
                except Exception as e:
                    v = (None, "%s: %s" % (type(e).__name__, str(e).strip().splitlines()[-1:]))
                box["seen_val"] = v
                box["seen"] = box["i"]

        box["u"] = run.main("u", user)
        run.main("reader", reader)
        k = run.go()
        if k.stuck:
            out.bad("stuck", k.stuck)
        for p in k.procs:
            if p.error:
                out.bad("proc-error", "%s: %s" % (p.name, p.error))
        out.nontrivial_history = True
        k.hash.update(json.dumps([scn["ops"], scn["batch"], N, scn["cls"], box["log"]]).encode())

    @staticmethod
    def rows(o, N):
        return N - o["istart"] if o["icount"] is None else min(o["icount"], N - o["istart"])

    def shrink(self, scn):
        for i in range(len(scn["ops"])):
            if len(scn["ops"]) > 1:
                s = copy.deepcopy(scn)
                del s["ops"][i]
                yield s
        for key, val in (("precision", "double"), ("acc", None), ("chunk", None), ("xdt", "f8")):
            if scn[key] != val:
                s = copy.deepcopy(scn)
                s[key] = val
                yield s
        for i, o in enumerate(scn["ops"]):
            for key, val in (("over", ""), ("src", "array"), ("src2", "array"), ("istart", 0), ("ver", 0), ("reuse", False)):
                if o.get(key) not in (None, val):
                    s = copy.deepcopy(scn)
                    s["ops"][i][key] = val
                    yield s


PROP = C13()
