"""C21 Out-of-core operations need memory for a few batches, whatever the data size and the speed of helpers."""
import contextlib
import copy
import json
import tracemalloc

import numpy as np

from .. import engine, gen, kernel as K
from . import base, persist as P

SMALL = 150e3          # objects of the interpreter, PyTables and the simulator
HELPERS = 350e3        # the same with helper processes


class Mem:
    """peak of the memory allocated by all simulated processes together, without the simulated disk"""

    def __init__(self):
        self.depth = self.off = self.before = 0
        self.base = self.peak = 0

    def start(self):
        tracemalloc.reset_peak()
        self.base = tracemalloc.get_traced_memory()[0]
        self.off = 0
        self.peak = self.base

    def mark(self):
        tracemalloc.reset_peak()
        self.peak = tracemalloc.get_traced_memory()[0] - self.off

    def enter(self):
        if not self.depth:
            self.before, top = tracemalloc.get_traced_memory()
            self.peak = max(self.peak, top - self.off)
        self.depth += 1

    def leave(self, keeps=False):
        self.depth -= 1
        if not self.depth:
            if keeps:          # what the simulator keeps for its own use is not the program's either
                self.off += tracemalloc.get_traced_memory()[0] - self.before
            tracemalloc.reset_peak()

    @contextlib.contextmanager
    def aside(self):
        self.enter()
        try:
            yield
        finally:
            self.leave()

    def used(self):
        return max(self.peak, tracemalloc.get_traced_memory()[1] - self.off) - self.base


class C21(base.Prop):
    id = "C21"
    rule = ("1 run = one simulated process makes 1-3 out-of-core calls (add data, train, predict, project, error, confusion, "
            "validation-based selection, their asynchronous versions, normalisation, text conversion) on HDF5 files at least eight "
            "times larger than the memory allowed; readers, writers and the caller stalled for seconds to hours at any step, pipes "
            "that hold one message. The peak of the memory that all simulated processes allocate together is measured during each "
            "call. Non-trivial: a schedule deviation or a stall.")
    real = ["hpelm.hp_elm, hpelm.elm, hpelm.nnets, hpelm.modules", "PyTables/HDF5 (core driver)", "numpy/scipy and their allocations"]
    stub = ["disk image exchange and HDF5 file locks (not counted)", "multiprocessing queues, pipes and processes (messages are counted)",
            "process scheduler", "clock"]
    assumptions = ["pipes hold one message", "buffers inside the HDF5 library are not counted"]

    def gen(self, rng, i):
        cls = rng.choice([None, None, "c", "wc", "ml"])
        d, c, L = rng.choice([24, 32, 40]), rng.choice([24, 32]), rng.choice([6, 12, 24])
        s = {"inputs": d, "outputs": c, "L": L, "cls": cls, "w": rng.random() < 0.3, "batch": rng.choice([8, 16, 25, 32]),
             "acc": rng.choice([None, None, "basic"]), "precision": rng.choice(["double", "double", "single"]),
             "norm": 1.0, "rs": rng.getrandbits(30), "chunk": rng.choice([None, 8, 16]), "ops": [],
             "policy": gen.policy(rng), "step_cap": 2000000, "config": {"flock": True, "pipe_cap": 1}}
        for _ in range(rng.choice([1, 1, 2, 3])):
            o = {"op": rng.choice(["add", "add", "add_async", "train", "train_async", "predict", "predict", "predict_async", "elm",
                                   "predict_async", "project", "error", "normalize", "text"] + ([rng.choice(["valid", "confusion"])] if cls
                                   else ["valid"]))}
            if o["op"] in ("add", "add_async"):
                o["files"] = rng.random() < 0.3
            if rng.random() < 0.3 and o["op"] not in ("confusion", "valid", "normalize", "text", "train", "train_async", "elm"):
                o["istart"] = rng.randint(1, 40)
            if o["op"] in ("predict", "project"):
                o["dst"] = rng.choice(["file", "file", "array", "none"])
            s["ops"].append(o)
            if o["op"].endswith("_async"):
                s["batch"] = max(s["batch"], rng.choice([32, 50, 64]))
            if o["op"] in ("valid", "confusion"):          # these are slow for many classes
                s["batch"], s["outputs"] = rng.choice([64, 100]), 4
        s["N"] = int(self.limit(s) * rng.choice([2.0, 2.5]) // (8 * min(d, s["outputs"]))) + rng.randint(0, 7)
        return s

    @staticmethod
    def unit(s):
        """one batch of inputs, targets, hidden layer and outputs"""
        return s["batch"] * 8 * (s["inputs"] + 2 * s["outputs"] + s["L"])

    def limit(self, s):
        L, c = s["L"], s["outputs"]
        helpers = any(o["op"].endswith("_async") for o in s["ops"])
        return 6 * self.unit(s) + 8 * (12 * L * L + 12 * L * c) + (HELPERS if helpers else SMALL)

    def fault_plans(self, rng, scn, out):
        tasks = [t for t in out.task_n if t.startswith("u") and out.task_n[t] > 0]
        plans = []
        for _ in range(2):
            faults = []
            for _ in range(rng.choice([1, 2, 3])):
                t = rng.choice(tasks)
                faults.append({"task": t, "at": ["step", rng.randint(1, max(1, out.task_n[t] // rng.choice([1, 4, 20])))],
                               "kind": "stall", "dt": rng.choice([1.0, 100.0, 5000.0])})
            plans.append((faults, gen.policy(rng)))
        return plans

    def body(self, scn, run, out):
        rs = np.random.RandomState(scn["rs"] % (2 ** 31))
        N, d, c, L = scn["N"], scn["inputs"], scn["outputs"], scn["L"]
        k = run.k
        k.record_ops = False
        mem = k.config["_mem"] = Mem()
        dt = "float32" if scn["precision"] == "single" else "float64"
        X = rs.randint(-3, 4, (N, d)) * 1.0
        T = np.eye(c)[rs.randint(0, c, N)] if scn["cls"] else rs.randint(-3, 4, (N, c)) * 1.0
        ch = scn["chunk"]
        for fn, A in (("X.h5", X), ("T.h5", T), ("P.h5", T * 0.5)):
            engine.write_h5(run.path(fn), A, dt, (ch, A.shape[1]) if ch else None)
        if any(o["op"] == "normalize" for o in scn["ops"]):
            engine.write_h5(run.path("Z.h5"), X, dt, (16, d), True)
        if any(o["op"] == "text" for o in scn["ops"]):
            with open(run.path("X.txt"), "w") as f:
                for r in X.astype(int).tolist():
                    f.write(" ".join(map(str, r)) + "\n")
        W, B, Bw = rs.randn(d, L), rs.randn(L), rs.randn(L, c)
        del X, T
        box = {}

        def model(env, w):
            kw = {"accelerator": "basic"} if scn["acc"] == "basic" else {}
            m = env.hpelm.HPELM(d, c, classification=scn["cls"] or "", w=w, batch=scn["batch"], norm=scn["norm"],
                                precision=scn["precision"], **kw)
            m.add_neurons(L, "tanh", W, B)
            m.nnet.set_B(Bw.copy())
            if scn["cls"] == "wc" and w is None:
                m.wc = np.ones(c, dt)
            return m

        def user(env):
            w = [1.0 + i % 3 for i in range(c)] if scn["cls"] == "wc" and scn["w"] else None
            m = model(env, w)
            X, T, PP = env.path("X.h5"), env.path("T.h5"), env.path("P.h5")
            mods = env.proc.modules["hpelm.modules"]
            for i, o in enumerate(scn["ops"]):
                op = o["op"]
                if not i:
                    mem.start()            # what earlier calls keep counts in the later ones
                mem.enter()                # arguments belong to the caller
                kw = {"istart": o["istart"]} if o.get("istart") else {}
                n, extra, r = N - o.get("istart", 0), 0, None
                if op in ("add", "add_async"):
                    if o.get("files"):
                        kw.update(fHH=env.path("HH.h5"), fHT=env.path("HT.h5"))
                    if scn["cls"] == "wc" and w is None:
                        m.wc = None
                    fn, a = m.add_data if op == "add" else m.add_data_async, (X, T)
                elif op in ("train", "train_async"):
                    fn, a = getattr(m, op), (X, T) + ((scn["cls"],) if scn["cls"] else ())
                elif op == "predict_async":
                    fn, a = m.predict_async, (X, env.path("Y.h5"))
                elif op in ("predict", "project"):
                    fn, wd = getattr(m, op), c if op == "predict" else L
                    if o["dst"] == "array":
                        a = (X, np.zeros((n, wd)))
                    else:
                        a = (X, env.path("Y.h5")) if o["dst"] == "file" else (X,)
                        extra = n * wd * 8 if o["dst"] == "none" else 0        # the result belongs to the caller
                elif op == "error":
                    fn, a = m.error, (T, PP)
                elif op == "confusion":
                    fn, a = m.confusion, (T, PP)
                elif op == "valid":
                    if not box.get("corr"):
                        box["corr"] = True
                        HH = np.eye(L) * 50.0
                        P.quiet(env, engine.write_h5, env.path("vHH.h5"), HH)
                        P.quiet(env, engine.write_h5, env.path("vHT.h5"), HH @ Bw)
                    m = model(env, w)          # its neurons are selected
                    fn, a, kw = m.validation_corr, (env.path("vHH.h5"), env.path("vHT.h5"), X, T), {"steps": [3, L]}
                    extra = 4 * 8 * c * c
                elif op == "normalize":
                    fn, a, kw = mods.normalize_hdf5, (env.path("Z.h5"),), {"batch": scn["batch"]}
                elif op == "text":
                    fn, a, kw = mods.make_hdf5, (env.path("X.txt"), env.path("XX.h5")), {}
                elif op == "elm":          # batches of data that are in memory
                    e = env.hpelm.ELM(d, c, classification=scn["cls"] or "", batch=scn["batch"], norm=scn["norm"], w=w)
                    e.add_neurons(L, "tanh", W, B)
                    if "XT" not in box:
                        box["XT"] = engine.read_h5(env.path("X.h5"))[0], engine.read_h5(env.path("T.h5"))[0]
                    fn, a, kw = e.add_data, box["XT"], {}
                mem.leave(True)
                mem.mark()
                r = fn(*a, **kw)
                used = mem.used() - extra
                del r
                mem.enter()
                del a
                mem.leave(True)
                box["seen"] = max(box.get("seen", 0), used / self.limit(scn))
                if op == "valid":
                    m = model(env, w)
                if used > self.limit(scn):
                    out.bad("memory", "%s: %d bytes for batches of %d rows (%d bytes each) from files of %d rows (%d bytes), allowed %d"
                            % (json.dumps(o), used, scn["batch"], self.unit(scn), N, N * 8 * d, self.limit(scn)))
                    return

        tracemalloc.start(1)
        try:
            run.main("u", user)
            run.go()
        finally:
            tracemalloc.stop()
        if k.stuck:
            out.bad("stuck", k.stuck)
        for p in k.procs:
            if p.error:
                out.bad("proc-error", "%s: %s" % (p.name, p.error))
        self.last = box
        k.hash.update(json.dumps([scn["ops"], scn["batch"], N]).encode())

    def shrink(self, scn):
        for i in range(len(scn["ops"])):
            if len(scn["ops"]) > 1:
                s = copy.deepcopy(scn)
                del s["ops"][i]
                yield s
        for key, val in (("precision", "double"), ("acc", None), ("chunk", None), ("cls", None)):
            if scn[key] != val and not (key == "cls" and any(o["op"] == "confusion" for o in scn["ops"])):
                s = copy.deepcopy(scn)
                s[key] = val
                yield s


PROP = C21()
