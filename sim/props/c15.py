"""C15 Conversion to HDF5 is exact, or fails loudly and can be repeated."""
import bz2
import copy
import gzip
import io
import json

import numpy as np

from .. import engine, gen, kernel as K
from . import base, persist as P

DTYPES = ["float64", "float64", "float32", "int32", "int64", "int16"]


def same(a, b):
    """same values, including nan and the sign of zero"""
    if a.shape != b.shape:
        return False
    if a.dtype.kind != "f":
        return bool(np.array_equal(a, b))
    return bool(np.array_equal(a, b, equal_nan=True) and np.array_equal(np.signbit(a[a == 0]), np.signbit(b[b == 0])))


class C15(base.Prop):
    id = "C15"
    rule = ("1 run = one simulated process converts 1-3 sources (array of any dtype / order / 1-2 dimensions, .npy, .txt, .csv, "
            ".gz, .bz2, shape) to HDF5 with random type, delimiter, skipped rows and compression, over missing, existing or broken "
            "files; another process opens each file right after the call. Faults: every open / read / write / append / attribute / "
            "flush / close error, once or lasting, short reads, MemoryError, a kill; then the conversion is repeated, in the same "
            "process or, after a kill, in another one. Non-trivial: distinct scenario or fired fault.")
    real = ["hpelm.modules.hdf5_tools.make_hdf5", "PyTables/HDF5 (core driver)", "numpy text and npy readers", "gzip, bz2"]
    stub = ["disk image exchange and HDF5 file locks", "files, disk errors", "process scheduler"]
    assumptions = ["at least one row and one column", "the body of .npy files is read by the real operating system"]

    def gen(self, rng, i):
        s = {"ops": [], "config": {"flock": rng.random() < 0.8, "bufsize": rng.choice([None, 16, 64, 200])},
             "policy": gen.policy(rng, ["seq", "rtb", "rw"])}
        for _ in range(rng.choice([1, 1, 2, 3])):
            src = rng.choice(["array", "npy", "txt", "csv", "gz", "bz2", "shape", "txt", "csv"])
            o = {"src": src, "n": rng.choice([1, 1, 2, 5, 17, 40, 40, 130]), "d": rng.choice([1, 1, 2, 3, 7]),
                 "dtype": rng.choice(DTYPES), "comp": rng.choice([0, 0, 1, 9, 5]), "rs": rng.getrandbits(20),
                 "out": rng.choice(["a.h5", "a.h5", "b.h5"]), "over": rng.choice(["", "", "same", "garbage"]),
                 "positional": rng.random() < 0.3, "nodtype": rng.random() < 0.15}
            if src in ("txt", "csv", "gz", "bz2"):
                o["delim"] = rng.choice([None, ",", ";", "\t", " "])
                o["skip"] = rng.choice([0, 0, 1, 3])
                o["fmt"] = rng.choice(["repr", "%.3e", "%g"])
                o["eol"] = rng.random() < 0.7
                o["crlf"] = rng.random() < 0.15
                o["special"] = rng.random() < 0.2
                o["ragged"] = rng.random() < 0.06 and rng.choice(["more", "less", "word"])
            else:
                o["sdt"] = rng.choice(["float64", "float32", "int32", "uint8", "bool", "int64"])
                o["order"] = rng.choice(["C", "F", "neg", "step", "cols", "bcast", "swap"])
                o["one"] = rng.random() < 0.2
                o["special"] = rng.random() < 0.2
                if src != "shape" and rng.random() < 0.04:
                    o["cube"] = rng.choice([1, 2, 3])
            o["samename"] = rng.random() < 0.4       # the source file is replaced by the next one
            if rng.random() < 0.03 and s["config"]["bufsize"] is None:
                o["n"] = rng.choice([1000, 1001, 1025, 2500])
                if rng.random() < 0.3:
                    o["n"], o["d"] = rng.choice([[10001, 1], [12000, 2], [33000, 1], [66000, 1]]) if o["src"] not in ("txt", "csv") \
                        else rng.choice([[10001, 1], [12000, 2], [17000, 1]])
            s["ops"].append(o)
        return s

    def fault_plans(self, rng, scn, out):
        plans = []
        pts = base.io_points(out, ["u"])
        for _ in range(4):
            if not pts:
                break
            plans.append(([base.io_fault(rng, pts, 0.2)], None))
        plans.append(([{"task": "u", "at": ["step", rng.randint(1, max(2, out.task_n.get("u", 2)))],
                        "kind": rng.choice(["mem", "kill", "kill", "kbd"])}], None))
        return plans

    def source(self, o, run, i):
        """(argument, expected matrix, kwargs)"""
        rs = np.random.RandomState(o["rs"])
        n, d = o["n"], o["d"]
        isint = np.dtype(o["dtype"]).kind == "i"
        dt = np.float64 if o["nodtype"] else np.dtype(o["dtype"])
        kw = {}
        if not o["nodtype"]:
            kw["dtype"] = np.dtype(o["dtype"]).type
        if o["comp"]:
            kw["comp_level"] = o["comp"]
        if o["src"] == "shape":
            return (n, d), np.zeros((n, d), dt), kw, None
        if o["src"] in ("array", "npy"):
            A = (rs.randn(n, d) * 20)
            if o["sdt"] == "uint8":
                A = np.abs(A)
            A = A.astype(o["sdt"])
            if o.get("special"):
                # values at the limits of the type, where the target type can hold them
                if A.dtype.kind == "f" and not isint:
                    sp = [np.nan, np.inf, -np.inf, -0.0, np.finfo(A.dtype).tiny / 4, np.finfo(np.float32).max, 1 / 3.0]
                elif A.dtype.kind == "i" and np.dtype(o["dtype"]).itemsize >= A.dtype.itemsize and isint and not o["nodtype"]:
                    ii = np.iinfo(A.dtype)
                    sp = [ii.min, ii.max, ii.max - 1, ii.min + 1, ii.max // 2]
                else:
                    sp = [0, 1]
                m = rs.rand(n, d) < 0.4
                A[m] = np.array(sp, A.dtype)[rs.randint(0, len(sp), m.sum())]
            if o["one"]:
                A = A[:, 0].copy()
            if o["order"] == "F":
                A = np.asfortranarray(A)
            elif o["order"] == "neg":
                A = A[::-1]
            elif o["order"] == "step":
                A = np.repeat(A, 2, axis=0)[::2]
            elif o["order"] == "cols" and A.ndim == 2:
                A = A[:, ::-1]
            elif o["order"] == "bcast":
                A = np.broadcast_to(A[:1], A.shape)
            elif o["order"] == "swap":
                A = A.astype(A.dtype.newbyteorder(">"))
            E = np.array(A).astype(dt)
            if E.ndim == 1:
                E = E[:, None]
            if o.get("cube"):               # not a matrix
                A, E = np.repeat(np.atleast_2d(A)[:, :, None], o["cube"], axis=2), None
            if o["src"] == "array":
                return A, E, kw, None
            b = io.BytesIO()
            np.save(b, A)
            return run.path("s.npy" if o.get("samename") else "s%d.npy" % i), E, kw, b.getvalue()
        V = rs.randint(-99, 100, (n, d)) if isint else rs.randn(n, d) * 10.0 ** rs.randint(-3, 4, (n, d))
        f = (lambda v: str(v)) if isint else (lambda v: repr(float(v))) if o["fmt"] == "repr" else (lambda v: o["fmt"] % v)
        rows = [[f(v) for v in r] for r in V.tolist()]
        if o.get("special"):
            if isint and not o["nodtype"]:
                ii = np.iinfo(o["dtype"])
                sp = [str(v) for v in (ii.min, ii.max, ii.max - 1, ii.min + 1, ii.max // 2)]
            elif isint:
                sp = ["9007199254740993", "-0", "0"]
            else:
                sp = ["nan", "inf", "-inf", "-0.0", "1e-310", "1e+30", "0.1", "123456789.123456789"]
            rows = [[sp[rs.randint(len(sp))] if rs.rand() < 0.4 else x for x in r] for r in rows]
        if o.get("ragged") and (n > 1 or o["ragged"] == "word"):
            j = rs.randint(1 if o["ragged"] != "word" else 0, n)
            bad = [list(r) for r in rows]
            bad[j] = {"more": bad[j] + ["1"], "less": bad[j][:-1] or ["1", "1"], "word": bad[j][:-1] + ["x1"]}[o["ragged"]]
            E = None
        elif isint and not o["nodtype"]:
            E = np.array([[int(x) for x in r] for r in rows], dtype=dt)
        else:
            E = np.array([[float(x) for x in r] for r in rows]).astype(dt)
        if E is None:
            rows = bad
        delim = o["delim"] or " "
        if o["delim"] is not None:
            kw["delimiter"] = o["delim"]
        nl = "\r\n" if o["crlf"] else "\n"
        head = ["header %d of the file, with; text" % j for j in range(o["skip"])]
        if o["skip"]:
            kw["skiprows"] = o["skip"]
        text = nl.join(head + [delim.join(r) for r in rows]) + (nl if o["eol"] else "")
        p = run.path("s%s.%s" % ("" if o.get("samename") else i, o["src"] if o["src"] in ("txt", "csv") else "txt." + o["src"]))
        b = text.encode()
        if o["src"] == "gz":
            b = gzip.compress(b, mtime=0)
        elif o["src"] == "bz2":
            b = bz2.compress(b)
        return p, E, kw, b

    def body(self, scn, run, out):
        ops = scn["ops"]
        srcs = [self.source(o, run, i) for i, o in enumerate(ops)]
        keep = [a.copy() if isinstance(a, np.ndarray) else None for a, _, _, _ in srcs]
        box = {"log": [], "i": -1}

        def convert(env, i):
            a, _, kw, _ = srcs[i]
            p = run.path(ops[i]["out"])
            mk = env.proc.modules["hpelm.modules"].make_hdf5
            kw = dict(kw)
            if ops[i]["positional"] and "dtype" in kw:
                return mk(a, p, kw.pop("dtype"), **kw)
            return mk(a, p, **kw)

        def prepare(i):
            o = ops[i]
            if srcs[i][3] is not None:
                with open(srcs[i][0], "wb") as f:
                    f.write(srcs[i][3])
            p = run.path(o["out"])
            if o["over"] == "same":
                engine.write_h5(p, np.full((o["n"], o["d"]), 7.0))
            elif o["over"] == "garbage":
                with open(p, "wb") as f:
                    f.write(b"no hdf5" * 99)

        def check(env, i):
            E = srcs[i][1]
            p = run.path(ops[i]["out"])
            M, e = engine.read_h5(p)
            if M is None:
                return "file after the call: %s" % e
            if M.dtype != E.dtype:
                return "type %s, expected %s" % (M.dtype, E.dtype)
            if not same(M, E):
                return "file holds %s %s, expected %s %s" % (M.shape, M[:6].tolist(), E.shape, E[:6].tolist())
            if keep[i] is not None and not same(keep[i], srcs[i][0]):
                return "the source array was changed"
            return None

        def user(env):
            k = env.k
            for i, o in enumerate(ops):
                k.armed = False
                box["i"] = i
                P.quiet(env, prepare, i)
                for attempt in (0, 1):
                    ev = sum(len(f.get("_evs", ())) for f in k.faults)
                    try:
                        k.armed = attempt == 0
                        convert(env, i)
                    except K.SimKilled:
                        raise
                    except (Exception, KeyboardInterrupt) as e:
                        k.armed = False
                        fs = [f for f in k.faults if f["_fired"]]
                        hit = sum(len(f.get("_evs", ())) for f in k.faults) > ev
                        box["log"].append([i, attempt, type(e).__name__])
                        if srcs[i][1] is None and isinstance(e, Exception):
                            break                 # not a matrix: it must fail
                        if not hit:
                            if any(f["kind"] in ("mem", "kbd") for f in fs):
                                return
                            out.bad("retry" if attempt else "failed", "%s of %s: %s: %s" % (
                                "repeated conversion" if attempt else "conversion", json.dumps(o), type(e).__name__, e))
                            return
                        continue
                    finally:
                        k.armed = False
                    if srcs[i][1] is None:
                        out.bad("accepted", "%s (attempt %d): a source that is no matrix is converted" % (json.dumps(o), attempt))
                        return
                    r = P.quiet(env, check, env, i)
                    if r[0] or r[1]:
                        out.bad("wrong", "%s (attempt %d): %s" % (json.dumps(o), attempt, r[0] or r[1]))
                        return
                    box["open"] = i
                    env.k.block(lambda: box.get("seen") == i, None, "reader")
                    if box["seen_err"]:
                        out.bad("open", "another process cannot use the file right after the call: %s" % box["seen_err"])
                        return
                    break

        def reader(env):
            import tables
            u = box["u"]
            while True:
                env.k.block(lambda: u.ended or "open" in box, None, "wait")
                if u.ended:
                    break
                i = box.pop("open")
                err = None
                try:
                    f = tables.open_file(run.path(ops[i]["out"]), "a")
                    node = None
                    for node in f.walk_nodes():
                        pass
                    if not same(node[:], srcs[i][1]):
                        err = "different data"
                    elif node.attrs.mean is not None or node.attrs.std is not None:
                        err = "mean / std are already set"
                    f.close()
                except Exception as e:
                    err = "%s: %s" % (type(e).__name__, str(e).strip().splitlines()[-1:])
                box["seen_err"], box["seen"] = err, i
            if u.state == K.DEAD and box["i"] >= 0 and srcs[box["i"]][1] is not None:
                # the conversion was killed: repeat it here
                try:
                    convert(env, box["i"])
                except Exception as e:
                    out.bad("retry", "conversion repeated after a kill: %s: %s" % (type(e).__name__, e))
                    return
                r = P.quiet(env, check, env, box["i"])
                if r[0] or r[1]:
                    out.bad("wrong", "%s repeated after a kill: %s" % (json.dumps(ops[box["i"]]), r[0] or r[1]))

        box["u"] = run.main("u", user)
        run.main("reader", reader)
        k = run.go()
        if k.stuck:
            out.bad("stuck", k.stuck)
        for p in k.procs:
            if p.error:
                out.bad("proc-error", "%s: %s" % (p.name, p.error))
        out.nontrivial_history = True
        k.hash.update(json.dumps([ops, box["log"]]).encode())

    def shrink(self, scn):
        for i in range(len(scn["ops"])):
            if len(scn["ops"]) > 1:
                s = copy.deepcopy(scn)
                del s["ops"][i]
                yield s
        for i, o in enumerate(scn["ops"]):
            for key, val in (("over", ""), ("comp", 0), ("n", 1), ("d", 1), ("dtype", "float64"), ("skip", 0), ("crlf", False),
                             ("special", False), ("order", "C")):
                if key in o and o[key] != val:
                    s = copy.deepcopy(scn)
                    s["ops"][i][key] = val
                    yield s


PROP = C15()
