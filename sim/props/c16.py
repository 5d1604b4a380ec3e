"""C16 HDF5 normalisation is applied exactly once and survives failures loudly."""
import copy
import json

import numpy as np

from .. import engine, gen, kernel as K
from . import base, persist as P


class C16(base.Prop):
    id = "C16"
    rule = ("1 run = a history of 1-5 normalisations of one data file (computed or given parameters, any batch size, chunk shape, "
            "type; made by make_hdf5 or another tool) by one or two simulated processes one after the other; after every call the data, the "
            "recorded and the returned parameters are compared with the reference. Faults: every open / read / write / attribute / "
            "flush / close error, once or lasting, with all or only the array data lost, MemoryError, KeyboardInterrupt, a kill at any "
            "operation, with array data written to the disk earlier than attributes; then the file is normalised again. Non-trivial: distinct history or fired fault.")
    real = ["hpelm.modules.hdf5_tools", "PyTables/HDF5 (core driver)", "numpy"]
    stub = ["disk image exchange and HDF5 file locks", "disk errors", "process scheduler", "delivery of interrupts"]
    assumptions = ["attributes become visible at flush and close, array data then or (in a part of the runs) at once"]

    def gen(self, rng, i):
        d = rng.choice([1, 1, 2, 3, 5])
        s = {"d": d, "n": rng.choice([1, 2, 3, 7, 16, 33]), "dt": rng.choice(["f8", "f8", "f4"]), "rs": rng.getrandbits(20),
             "chunk": rng.choice([None, 1, 4]), "const": [j for j in range(d) if rng.random() < 0.2],
             "made": rng.choice(["outside", "make_hdf5"]), "ops": [],
             "config": {"flock": rng.random() < 0.8, "evict": rng.random() < 0.4},
             "policy": {"kind": "seq"}}
        s["zeromean"] = rng.random() < 0.12
        large = rng.random() < 0.03
        s["tiny"] = rng.choice([None] * 6 + [-13, -10, -8, -6, 8])
        if large:                                  # around the default batch size
            s["n"], s["chunk"] = rng.choice(gen.BIG), None
        for j in range(rng.choice([1, 1, 2, 2, 3, 5])):
            s["ops"].append({"how": rng.choice(["auto", "auto", "auto", "given", "meanonly"]),
                             "batch": rng.choice([None, None, 1, 2, 3, 5, 100]) if not large else rng.choice([None, None, 700, 5000]), "proc": rng.choice([0, 0, 1]),
                             "rs": rng.getrandbits(20), "zero": rng.random() < 0.3, "list": rng.random() < 0.2})
            if s["ops"][-1]["how"] == "given" and j and rng.random() < 0.5:      # the same parameters once more
                o = rng.choice(s["ops"][:-1])
                o["how"] = rng.choice([o["how"], "given"])
                s["ops"][-1].update(rs=o["rs"], zero=o["zero"])
        return s

    def fault_plans(self, rng, scn, out):
        plans = []
        tasks = [t for t in out.task_n if t.startswith("p")]
        pts = base.io_points(out, tasks)
        for _ in range(4):
            if pts:
                f = base.io_fault(rng, pts, 0.2)
                if f.get("lost") and rng.random() < 0.5:
                    f["lost"] = "raw"
                plans.append(([f], None))
        for _ in range(2):
            t = rng.choice(tasks)
            plans.append(([{"task": t, "at": ["step", rng.randint(1, max(2, out.task_n[t]))],
                            "kind": rng.choice(["mem", "kill", "kbd", "kill"])}], None))
        return plans

    def body(self, scn, run, out):
        rs = np.random.RandomState(scn["rs"])
        n, d = scn["n"], scn["d"]
        D0 = np.round(rs.randn(n, d) * 10.0 ** rs.randint(-1, 3, d) + rs.randint(-5, 6, d), 3)
        for j in scn["const"]:
            D0[:, j] = np.round(rs.randn() * 10.0 ** rs.randint(-3, 4), 4)
        if scn.get("zeromean"):                    # the mean is exactly zero, or the data are constant zeros
            D0 = np.round(D0)
            D0[n // 2:n // 2 * 2] = -D0[:n // 2]
            if n % 2:
                D0[-1] = 0
        D0 = D0.astype(scn["dt"])
        if scn.get("tiny"):                        # a column of another scale, with or without an offset of that scale
            D0[:, -1] = (D0[:, -1] * 10.0 ** scn["tiny"]).astype(scn["dt"])
        path = run.path("D.h5")
        ch = scn["chunk"]
        if scn["made"] == "outside":
            engine.write_h5(path, D0, None, (min(ch, n), d) if ch else None, attrs=True)
        ops = scn["ops"]
        single = scn["dt"] == "f4"
        # reference state
        ref = {"D": D0, "attrs": None, "started": False, "bases": []}
        box = {"next": 0, "log": [], "unit": np.abs(D0.astype("f8")).max(0) + 1e-200}

        def given(o):
            r = np.random.RandomState(o["rs"])
            m, s = np.round(r.randn(d), 2), np.round(np.abs(r.randn(d)) + 0.1, 2)
            if o["zero"]:
                s[0] = 0
            return m, s

        def plan(o, base=None):
            """(parameters, data after) or None when nothing is to change"""
            D, attrs = base or (ref["D"], ref["attrs"])
            D = D.astype("f8")
            if o["how"] == "given":
                m, s = given(o)
            elif attrs is not None:
                return None
            else:
                m, s = D.mean(0), D.std(0)
                const = (D == D[0]).all(0)
                m, s = np.where(const, D[0], m), np.where(const, 0.0, s)
            s1 = np.where(s == 0, 1.0, s)
            return (m, s1), ((D - m) / s1).astype(scn["dt"])

        def call(env, o):
            f = env.proc.modules["hpelm.modules"].normalize_hdf5
            kw = {}
            if o["batch"] is not None:
                kw["batch"] = o["batch"]
            if o["how"] == "given":
                m, s = given(o)
                if o["list"]:
                    m, s = m.tolist(), s.tolist()
                a, b = copy.deepcopy((m, s))
                r = f(path, m, s, **kw)
                if not (np.array_equal(a, m) and np.array_equal(b, s)):
                    out.bad("inputs", "the given mean / std were changed: %s -> %s, %s -> %s" % (a, m, b, s))
                return r
            if o["how"] == "meanonly":
                return f(path, mean=given(o)[0], **kw)
            return f(path, **kw)

        def disk():
            M, e = engine.read_h5(path)
            if M is None:
                return None, None, e
            try:
                a = engine.h5_attrs(path)
            except Exception as ex:
                return M, None, "attributes: %r" % ex
            return M, a, None

        def near(a, b, tol, unit=1.0):
            try:
                a, b = np.asarray(a, float), np.asarray(b, float)
            except Exception:
                return False
            return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (unit + np.abs(b))))

        dtol = 1e-4 if single else 1e-8
        ptol = 1e-6 if single else 1e-9

        def params(a, b):
            u = box["unit"]                        # largest value of each column that went into them
            return near(a[0], b[0], ptol, u) and near(a[1], b[1], ptol, u)

        def state_is(M, A, D, attrs):
            if M is None or M.shape != D.shape or M.dtype != D.dtype:
                return False
            if attrs is None:
                return (A is None or A[0] is None or A[1] is None) and np.array_equal(M, D)
            return A is not None and A[0] is not None and params(A, attrs) and near(M, D, dtol)

        def after_ok(o, ret):
            """judge a call that returned; after a failure the file may have been left as it was, or completely
            normalised, but nothing in between"""
            M, A, e = disk()
            if M is None:
                return "file after the call: %s" % e
            msg = None
            for D0, A0 in [(ref["D"], ref["attrs"])] + ref["bases"]:
                pl = plan(o, (D0, A0))
                attrs, D = pl if pl is not None else (A0, D0)
                if pl is None and not ref["started"] and not np.array_equal(M, D):
                    r = "repeated normalisation changed the data: %s, before %s" % (M.tolist(), D.tolist())
                elif not state_is(M, A, D, attrs):
                    r = "data %s, recorded %s; expected %s, %s" % (M.tolist(), A, D.tolist(), attrs)
                else:
                    r = None
                    try:
                        a, b = ret
                        if not params((a, b), attrs):
                            r = "returned %s, expected %s" % (ret, attrs)
                    except Exception:
                        r = "returned %r" % (ret,)
                if r is None:
                    ref.update(D=M, attrs=A, started=False, bases=[])
                    return None
                msg = msg or r
            return msg

        def user(i):
            def fn(env):
                k = env.k
                k.armed = False
                while box["next"] < len(ops):
                    if ops[box["next"]]["proc"] != i and not box.get("dead"):
                        want = lambda: box["next"] >= len(ops) or ops[box["next"]]["proc"] == i or box.get("dead") or \
                            procs[1 - i].ended
                        k.block(want, None, "turn")
                        if procs[1 - i].ended:
                            box["dead"] = True
                        continue
                    if not one(env, ops[box["next"]]):
                        box["next"] = len(ops)
                        return
                    box["next"] += 1
            return fn

        def touched(k, task, ev):
            return any(e[0] == task and e[2] in ("h5attr", "h5write", "h5append", "h5flush") for e in k.events[ev:])

        def interrupted(o):
            """a call failed after it had begun to change the file"""
            ref["started"] = True
            pl = plan(o)
            if pl is not None:
                ref["bases"].append((pl[1], pl[0]))

        def one(env, o):
            k = env.k
            if box.get("pending"):
                # the other process was killed in the middle of this call
                t, ev = box["pending"]
                if touched(k, t, ev):
                    interrupted(o)
                box["pending"] = None
            for attempt in range(3):
                hits = sum(len(f.get("_evs", ())) for f in k.faults)
                name, ev = k.current.name, len(k.events)
                box["pending"] = (name, ev)
                try:
                    k.armed = True
                    ret = call(env, o)
                except K.SimKilled:
                    raise
                except (Exception, KeyboardInterrupt) as e:
                    k.armed = False
                    box["pending"] = None
                    hit = sum(len(f.get("_evs", ())) for f in k.faults) > hits
                    box["log"].append([box["next"], attempt, type(e).__name__, hit])
                    if not hit:
                        if not ref["started"] and not any(f["kind"] in ("mem", "kbd") and f["_fired"] for f in k.faults):
                            out.bad("failed", "%s failed without a fault (%s): %s: %s" % (
                                json.dumps(o), box["log"], type(e).__name__, e))
                        return False             # partly normalised data are refused
                    if type(e) in (MemoryError, KeyboardInterrupt) and env.proc.h5:
                        return False             # interrupted before the file was closed: it stays open
                    if touched(k, name, ev):
                        interrupted(o)
                    continue
                finally:
                    k.armed = False
                box["pending"] = None
                r, e = P.quiet(env, after_ok, o, ret)
                if r or e:
                    out.bad("wrong", "%s (attempt %d, %s): %s" % (json.dumps(o), attempt, box["log"], r or e))
                    return False
                return True
            return False

        procs = [None, None]
        def make(env):
            if scn["made"] == "make_hdf5":
                env.k.armed = False
                env.proc.modules["hpelm.modules"].make_hdf5(D0, path, dtype=D0.dtype.type)
        mk = run.main("mk", make)
        procs[0] = run.main("p0", user(0), after=lambda: mk.ended)
        procs[1] = run.main("p1", user(1), after=lambda: mk.ended)
        k = run.go()
        if k.stuck:
            out.bad("stuck", k.stuck)
        for p in k.procs:
            if p.error and "SimKilled" not in p.error:
                out.bad("proc-error", "%s: %s" % (p.name, p.error))
        out.nontrivial_history = True
        k.hash.update(json.dumps([ops, n, d, scn["dt"], box["log"]]).encode())

    def shrink(self, scn):
        for i in range(len(scn["ops"])):
            if len(scn["ops"]) > 1:
                s = copy.deepcopy(scn)
                del s["ops"][i]
                yield s
        for key, val in (("dt", "f8"), ("chunk", None), ("const", []), ("made", "outside"), ("n", 1), ("n", 3), ("tiny", None)):
            if scn.get(key) != val:
                s = copy.deepcopy(scn)
                s[key] = val
                yield s


PROP = C16()
