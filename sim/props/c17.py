"""C17 Clock behaviour never affects results, and progress is reported when due."""
import copy
import json
import re

import numpy as np

from .. import engine, gen, kernel as K, refmodel as R
from . import base, persist as P

SYNC = ["add", "addfiles", "train", "predict", "project", "predictf", "projectf", "valid"]
ASYNC = ["aadd", "aaddfiles", "atrain", "apredict"]
LINE = re.compile(r"processing batch (-?\d+)/(-?\d+), eta (-?\d+):(-?\d+):(-?\d+)")


class C17(base.Prop):
    id = "C17"
    rule = ("1 run = one simulated process makes 1-3 batched calls (add_data in memory or to files, train, predict, project, "
            "validation_corr, and the asynchronous versions with their reader and writer processes) under a chosen wall clock: regular with "
            "any tick, frozen, jumping forwards and backwards at any reads; then the same calls under a frozen clock without "
            "reports. Faults: slow reads of data (stalls of seconds to hours), stalls of any process at any step. The printed lines "
            "are judged against the times of reading. Non-trivial: distinct scenario or fired fault.")
    real = ["hpelm.hp_elm, hpelm.modules.hdf5_tools", "PyTables/HDF5 (core driver)", "numpy/scipy", "fasteners"]
    stub = ["clock", "disk image exchange and locks", "multiprocessing (processes, queues, pipes)", "process scheduler"]
    assumptions = ["lines are judged as due only where the moment a batch ends is observable: one read of inputs (one message "
                   "from the reader process) per batch"]

    def gen(self, rng, i):
        d, c, L = rng.randint(1, 3), rng.randint(1, 3), rng.choice([3, 4, 6])
        cls = rng.choice(["", "", "c", "wc"]) if c > 1 else ""
        N = rng.choice([3, 6, 10, 15])
        asy = rng.random() < 0.35
        s = {"inputs": d, "outputs": c, "cls": cls, "w": [1.0, 2.5, 0.25][:c] if cls == "wc" and rng.random() < 0.5 else None,
             "L": L, "N": N, "batch": rng.choice([1, 1, 2, 3, 4, 50]), "neurons": gen.any_neurons(rng, d, L), "rs": rng.getrandbits(30),
             "ops": [rng.choice(ASYNC if asy and rng.random() < 0.8 else SYNC) for _ in range(rng.choice([1, 1, 2, 3]))],
             "tprint": rng.choice([0, 0.1, 1.1, 5.1, 5.1, 60.1, -1, 1, 5, 5, 7]),
             "istart": rng.choice([0, 0, 1, 2]), "policy": {"kind": "seq"} if rng.random() < 0.7 else gen.policy(rng), "config": {}}
        if cls == "wc" and "valid" in s["ops"]:
            s["w"] = [1.0, 2.5, 0.25][:c]
        r = rng.random()
        if r < 0.5:
            clock = {"tick": rng.choice([0.0, 1e-6, 1e-3])}
        elif r < 0.6:
            clock = {"tick": rng.choice([0.5, 3.0, 1000.0])}
        elif r < 0.7:
            clock = {"frozen": True}
        else:
            clock = {"tick": rng.choice([0.0, 1e-6, 0.5]), "jumps": [
                [rng.randint(1, 30), rng.choice([-1, 1]) * rng.choice([1e-3, 3.0, 3600.0, 1e6, 1.6e9])] for _ in range(rng.randint(1, 4))]}
        s["config"]["clock"] = clock
        return s

    def fault_plans(self, rng, scn, out):
        plans = []
        reads = [e for e in out.events if e[2] == "h5read" and e[3] == "X.h5"]
        for _ in range(3):
            if not reads:
                break
            f, base_dt = [], rng.choice([0.25, 1.0, 1.0, 7.0, 2000.0])
            for e in rng.sample(reads, rng.randint(1, len(reads))) if rng.random() < 0.5 else reads:
                f.append({"task": e[0], "at": ["op", e[2], e[3], e[4]], "kind": "stall",
                          "dt": base_dt * rng.choice([1, 1, 1, 2, 5])})
            plans.append((f, None))
        f = []
        for _ in range(rng.randint(1, 3)):
            t = rng.choice(sorted(out.task_n))
            f.append({"task": t, "at": ["step", rng.randint(1, max(2, out.task_n[t]))], "kind": "stall", "dt": rng.choice([1.0, 10.0, 5000.0])})
        plans.append((f, None))
        return plans

    # ---- one run of the calls
    def data(self, scn):
        rs = np.random.RandomState(scn["rs"] % (2 ** 31))
        N, d, c, L = scn["N"], scn["inputs"], scn["outputs"], scn["L"]
        X = np.round(rs.randn(N, d), 2)
        if scn["cls"]:
            lab = np.arange(N) % c
            rs.shuffle(lab)
            T = np.eye(c)[lab]
        else:
            T = np.round(rs.randn(N, c), 2)
        return X, T, np.round(rs.randn(L, c), 2)

    def start(self, scn, run, res):
        X, T, Bw = self.data(scn)
        ns = gen.np_neurons(scn["neurons"])
        L = scn["L"]
        engine.write_h5(run.path("X.h5"), X)
        engine.write_h5(run.path("T.h5"), T)
        dH, dT = R.corr(X, T, ns, None)
        engine.write_h5(run.path("VH.h5"), dH + np.eye(L))
        engine.write_h5(run.path("VT.h5"), dT)
        a = scn["istart"] if scn["cls"] != "wc" else 0
        n = scn["N"] - a

        def user(env):
            k = env.k
            for j, op in enumerate(scn["ops"]):
                m = env.hpelm.HPELM(scn["inputs"], scn["outputs"], classification=scn["cls"], w=scn["w"], batch=scn["batch"],
                                    norm=1.0, tprint=scn["tprint"])
                for f, W, B in ns:
                    m.add_neurons(W.shape[1], f, W, B)
                m.nnet.set_B(Bw.copy())
                fX, fT = run.path("X.h5"), run.path("T.h5")
                kw = {"istart": a} if a else {}
                r = {"op": op, "log": [], "t0": k.now, "nb": -(-n // scn["batch"])}
                res.append(r)
                self.rec = r["log"]
                y = None
                try:
                    o = op.lstrip("a") if op in ASYNC else op
                    name = {"dd": "add", "ddfiles": "addfiles"}.get(o, o)
                    sfx = "_async" if op in ASYNC else ""
                    if name == "add":
                        getattr(m, "add_data" + sfx)(fX, fT, **kw)
                    elif name == "addfiles":
                        getattr(m, "add_data" + sfx)(fX, fT, fHH=run.path("HH%d.h5" % j), fHT=run.path("HT%d.h5" % j), **kw)
                        y = lambda: [engine.read_h5(run.path("HH%d.h5" % j))[0], engine.read_h5(run.path("HT%d.h5" % j))[0]]
                    elif name == "train":
                        w = {"w": scn["w"]} if scn["w"] else {}
                        getattr(m, "train" + sfx)(fX, fT, *([scn["cls"]] if scn["cls"] else []), **dict(kw, **w))
                    elif name == "valid":
                        r["nb"] = -(-scn["N"] // scn["batch"])
                        v = m.validation_corr(run.path("VH.h5"), run.path("VT.h5"), fX, fT, steps=3)
                        y = lambda: [list(v[0]), v[1]] + list(v[2])
                    elif op == "apredict" or name.endswith("f"):
                        fn = run.path("Y%d.h5" % j)
                        getattr(m, name.rstrip("f") + sfx)(fX, fn, **kw)
                        y = lambda: [engine.read_h5(fn)[0]]
                    else:
                        v = getattr(m, name)(fX, **kw)
                        y = lambda: [v]
                    r["status"] = "ok"
                except K.SimKilled:
                    raise
                except Exception as e:
                    r["status"] = "%s: %s" % (type(e).__name__, e)
                self.rec = None
                r["t1"] = k.now

                def state():
                    HH, HT = m.nnet.get_corr() if m.nnet.HH is not None else (None, None)
                    return [HH, HT, m.nnet.get_B(), m.wc] + (y() if y and r["status"] == "ok" else [])
                r["state"] = P.quiet(env, state)

        buf = {}

        def stdout(t, s):
            if self.rec is None:
                return
            b = buf.get(t.name, "") + s
            while "\n" in b:
                line, b = b.split("\n", 1)
                self.rec.append((run.k.now, t.name, "line", line))
            buf[t.name] = b

        def hook(k, t, kind, label):
            if self.rec is not None and kind in ("h5read", "crecv", "qget"):
                self.rec.append((k.now, t.name, kind, label))
        def read(v):
            if self.rec is not None:
                self.rec.append((run.k.now, run.k.current.name, "clock", ""))
        self.rec = None
        run.k.config["_clock_reader"] = read
        run.k.config["_stdout"] = stdout
        run.k.op_hooks.append(hook)
        run.main("u", user)

    def body(self, scn, run, out):
        res = []
        self.start(scn, run, res)
        k = run.go()
        out.nontrivial_history = True
        if k.stuck:
            out.bad("hang", k.stuck)
            return
        for p in k.procs:
            if p.error:
                out.bad("proc-error", "%s: %s" % (p.name, p.error))
        k.hash.update(json.dumps([scn["ops"], scn["batch"], scn["N"], scn["config"], scn["tprint"]]).encode())
        for r in res:
            if r.get("status") != "ok":
                out.bad("failed", "%s: %s" % (r["op"], r.get("status")))
                return
            self.judge_lines(scn, r, out)
        if out.violations:
            return
        # the same calls, frozen clock, no reports, nothing slow
        s2 = copy.deepcopy(scn)
        s2.update(faults=[], policy={"kind": "seq"}, config={"clock": {"frozen": True}}, tprint=1e12)
        run2 = engine.Run(s2)
        res2 = []
        self.start(s2, run2, res2)
        try:
            k2 = run2.go()
            if k2.stuck or any(r.get("status") != "ok" for r in res2):
                out.bad("frozen", "with a frozen clock: %s %s" % (k2.stuck, [r.get("status") for r in res2]))
                return
        finally:
            run2.close()
        for r, q in zip(res, res2):
            if r["state"][1] or q["state"][1]:
                out.bad("state", "%s: %s / %s" % (r["op"], r["state"][1], q["state"][1]))
                continue
            x, y = r["state"][0], q["state"][0]
            if len(x) != len(y) or any((u is None) != (v is None) or (u is not None and not P.eq(u, v, 1e-9)) for u, v in zip(x, y)):
                out.bad("results", "%s: results with this clock %s, with a frozen one %s" % (r["op"], x, y))

    def judge_lines(self, scn, r, out):
        clock = scn["config"]["clock"]
        jumps = bool(clock.get("jumps"))
        frozen = bool(clock.get("frozen"))
        slack = 6 * clock.get("tick", 0) + 0.05
        tp, nb = scn["tprint"], r["nb"]
        asy = r["op"] in ASYNC
        per = 2 if r["op"] in ("aadd", "aaddfiles", "atrain") else 1
        steps = any(f["at"][0] == "step" for f in scn.get("faults") or [])
        # boundaries of batches: the first request for data of each
        if asy:
            b = [e[0] for e in r["log"] if e[1] == "u" and e[2] == "crecv"]
            if not b:
                b = [e[0] for e in r["log"] if e[1] == "u" and e[2] == "qget"]
            known = len(b) == nb * per
            b = b[::per]
        else:
            b = [e[0] for e in r["log"] if e[1] == "u" and e[2] == "h5read" and e[3] == "X.h5"]
            known = len(b) == nb
        b.append(r["t1"])
        exact = known and not steps and (not asy or scn["policy"]["kind"] == "seq")
        lines, last_i, clk = [], 0, r["t0"]
        for t, who, kind, s in r["log"]:
            if kind == "clock" and who == "u":
                clk = t
            if kind != "line" or who != "u" or not s.startswith("processing batch"):
                continue
            m = LINE.match(s)
            if not m:
                out.bad("line", "%s printed %r" % (r["op"], s))
                return
            i, n, h, mi, se = (int(x) for x in m.groups())
            lines.append((t, i, clk))
            if n != nb or i < 1 or i > nb or i <= last_i:
                out.bad("number", "%s printed %r (after batch %d, there are %d batches)" % (r["op"], s, last_i, nb))
                return
            last_i = i
            if known:
                done = sum(1 for x in b[:-1] if x <= t)
                if i != done:
                    out.bad("number", "%s printed %r after batch %d" % (r["op"], s, done))
                    return
            if not jumps:
                if min(h, mi, se) < 0 or mi > 59 or se > 59:
                    out.bad("eta", "%s printed %r" % (r["op"], s))
                    return
                if exact and not frozen:
                    e = (t - b[0]) / i * (nb - i)
                    if abs(h * 3600 + mi * 60 + se - e) > 1.5 + slack * nb:
                        out.bad("eta", "%s printed %r, %.3f s after the start" % (r["op"], s, t - b[0]))
                        return
        if jumps:
            return
        last = r["t0"]
        for t, i, seen in lines:
            if (0.0 if frozen else t - last) < tp - (0 if frozen else slack):
                out.bad("early", "%s reported batch %d %.3f s after the previous report, the interval is %s" % (r["op"], i, t - last, tp))
                return
            last = min(t, seen)      # the clock may have been read just before printing
        if not exact or frozen:
            return
        last = b[0]
        for j in range(nb):
            got = [t for t, i, _ in lines if b[j] <= t and i == j + 1]
            if got:
                last = got[0]
            elif b[j + 1] - last > tp + slack and not (j == nb - 1 and r["op"] in ("addfiles", "aaddfiles", "train", "atrain", "valid")
                                                       and b[j + 1] - last < tp + 5):
                out.bad("missing", "%s: batch %d of %d ended %.3f s after the last report, the interval is %s, nothing was printed" % (
                    r["op"], j + 1, nb, b[j + 1] - last, tp))
                return

    def shrink(self, scn):
        for i in range(len(scn["ops"])):
            if len(scn["ops"]) > 1:
                s = copy.deepcopy(scn)
                del s["ops"][i]
                yield s
        for key, val in (("cls", ""), ("istart", 0), ("policy", {"kind": "seq"})):
            if scn[key] != val and not (key == "cls" and scn["w"]):
                s = copy.deepcopy(scn)
                s[key] = val
                yield s


PROP = C17()
