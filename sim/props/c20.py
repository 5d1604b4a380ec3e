"""C20 Models are reproducible: the same calls with the same random state give the same model."""
import copy
import json
import os
import pickle
import select
import subprocess
import sys

import numpy as np

from .. import engine, gen, kernel as K
from . import base, persist as P

FUNCS = ["lin", "sigm", "tanh", "tanh", "rbf_l1", "rbf_l2", "rbf_linf", "ufunc:sin"]


def gen_program(rng, names, small=False):
    """models and calls on them, interleaved"""
    models, ops = [], []
    for j in range(1 if small else rng.choice([1, 1, 2])):
        hp = rng.random() < 0.45
        cls = rng.choice(["", "", "c", "wc", "ml"])
        d, c = gen.size(rng, 1, 4, [8, 20]), rng.randint(1, 3) if not cls else rng.randint(2, 3)
        m = {"kind": "HPELM" if hp else "ELM", "acc": rng.choice([None, None, "basic"]), "inputs": d, "outputs": c, "cls": cls,
             "batch": rng.choice([2, 3, 7, 50, None]), "norm": rng.choice([0.1, 0.5, 2.0, 0.1, 0.5, 2.0, None]), "N": rng.choice([14, 17, 22]),
             "precision": rng.choice(["double"] * 4 + ["single"]), "rs": rng.getrandbits(30), "files": hp and rng.random() < 0.6,
             "name": rng.choice(names)}
        seq = [["neurons", rng.randint(2, 4), rng.choice(FUNCS)] for _ in range(rng.choice([1, 2, 2, 3]))]
        for _ in range(rng.randint(1, 4)):
            seq.append(gen_op(rng, m))
        seq.append(["predict"])
        if rng.random() < 0.5:
            at = rng.randint(1, len(seq) - 1)
            seq.insert(at, rng.choice([["project"], ["dumps"], ["save"], ["neurons", 2, rng.choice(FUNCS)]]))
        models.append(m)
        ops.append([[j] + o for o in seq])
    out = []
    while any(ops):
        q = rng.choice([o for o in ops if o])
        out.append(q.pop(0))
    return {"models": models, "ops": out}


def gen_op(rng, m):
    r = rng.random()
    if r < 0.6:
        args, kw = [m["cls"]] if m["cls"] else [], {}
        if m["cls"] == "wc" and rng.random() < 0.4:
            kw["w"] = True
        if m["kind"] == "ELM":
            sel = rng.choice([None, "V", "CV", "LOO"])
            if sel:
                args.append(sel)
                if rng.random() < 0.4:
                    args.append("OP")
            if sel == "CV":
                kw["k"] = rng.choice([3, 4])
        if rng.random() < 0.25:
            kw["batch"] = rng.choice([2, 5, 50])
        return ["train", args, kw]
    if r < 0.8 and m["kind"] == "HPELM":
        return rng.choice([["corr"], ["corr"], ["valid"], ["predictf"], ["async"]])
    return rng.choice([["add"], ["dumps"], ["save"], ["project"], ["reset"], ["predict"]])


class Runner:
    """executes a program; every call appends what can be observed"""

    def __init__(self, env, prog, prefix, res):
        self.env, self.prog, self.prefix, self.res = env, prog, prefix, res
        self.m = {}
        self.count = 0

    def data(self, m, k):
        rs = np.random.RandomState((m["rs"] + 7 * k) % (2 ** 31))
        N, c = m["N"], m["outputs"]
        X = rs.randn(N, m["inputs"])
        if m["cls"] in ("c", "wc"):
            T = np.eye(c)[np.arange(N) % c][rs.permutation(N)]
        elif m["cls"] == "ml":
            T = (rs.rand(N, c) > 0.5) * 1.0
        else:
            T = np.sin(X.sum(1, keepdims=True) * np.arange(1, c + 1)) + 0.3 * rs.randn(N, c)
        return X, T

    def path(self, s):
        return self.env.path(self.prefix + s)

    def files(self, m, k):
        X, T = self.data(m, k)
        if not m["files"]:
            return X, T
        fX, fT = self.path(m["name"] + "X%d.h5" % self.count), self.path(m["name"] + "T%d.h5" % self.count)
        P.quiet(self.env, engine.write_h5, fX, X)
        P.quiet(self.env, engine.write_h5, fT, T)
        return fX, fT

    def new(self, s):
        kw = {"accelerator": "basic"} if s["acc"] == "basic" else {}
        for key in ("batch", "norm"):
            if s[key] is not None:
                kw[key] = s[key]
        return getattr(self.env.hpelm, s["kind"])(s["inputs"], s["outputs"], classification=s["cls"], precision=s["precision"], **kw)

    def do(self, op):
        s = self.prog["models"][op[0]]
        self.count += 1
        try:
            v = self._do(op, s)
        except K.SimKilled:
            raise
        except BaseException as e:
            v = ["raised", type(e).__name__, str(e).replace(self.env.path(""), "")[:80] if isinstance(e, AssertionError) else ""]
        m = self.m.get(op[0])
        st, err = P.quiet(self.env, P.snap, m) if m is not None else (None, None)
        self.res.append((op[:3], v, st, err))

    def _do(self, op, s):
        if op[0] not in self.m:
            self.m[op[0]] = self.new(s)
        m, o = self.m[op[0]], op[1]
        if o == "neurons":
            f = gen.UFUNCS.get(op[3], op[3])
            m.add_neurons(op[2], f)
            return None
        X, T = self.data(s, 1)
        if o == "train":
            kw = dict(op[3])
            if "w" in kw:
                kw["w"] = np.array([1.0, 2.5, 0.5][:s["outputs"]])
            if "V" in op[2]:
                kw["Xv"], kw["Tv"] = self.data(s, 2)
            a, t = self.files(s, 1)
            return m.train(a, t, *op[2], **kw)
        if o == "async":
            if not s["files"]:
                return None
            a, t = self.files(s, 1)
            m.train_async(a, t, *([s["cls"]] if s["cls"] else []))
            return None
        if o == "add":
            m.add_data(*self.files(s, 3))
            return None
        if o == "reset":
            m.nnet.reset()
            return None
        if o == "predict":
            y = m.predict(X)
            e = m.error(T, y) if s["cls"] != "wc" or m.wc is not None else None
            return [y, e] + ([m.confusion(T, y)] if m.classification else [])
        if o == "project":
            return m.project(X)
        if o == "predictf":
            fn = self.path("Y%d.h5" % self.count)
            m.predict(self.files(s, 2)[0], fn)
            return P.quiet(self.env, engine.read_h5, fn)[0]
        if o in ("corr", "valid"):
            h, t = self.path("HH%d.h5" % op[0]), self.path("HT%d.h5" % op[0])
            a, b = self.files(s, 4)
            m.add_data(a, b, fHH=h, fHT=t)
            if o == "corr":
                m.solve_corr(h, t)
                return None
            a, b = self.files(s, 5)
            return list(m.validation_corr(h, t, a, b, steps=4)[1])
        if o in ("dumps", "save"):
            x = self.new(s)
            if o == "dumps":
                x.loads(m.dumps())
            else:
                m.save(self.path("m%d" % op[0]))
                x.load(self.path("m%d" % op[0]))
            self.m[op[0]] = x
            return None
        raise AssertionError(o)


NAMES = {"first": "first", "second": "second", "hash": "(in a process with another PYTHONHASHSEED)"}


def fresh(scn):
    """the program alone in a fresh process: results of its calls, random parameters to compare, error"""
    s2 = copy.deepcopy(scn)
    s2.update(faults=[], policy={"kind": "seq"}, config={"clock": {"frozen": True}})
    run2 = engine.Run(s2)
    ref, rnd = [], []

    def user(env):
        np.random.seed(scn["seedrs"])
        r = Runner(env, scn["prog"], "p", ref)
        for op in scn["prog"]["ops"]:
            r.do(op)
        ref.append((["state"], np.random.get_state()[2], None, None))
        np.random.seed((scn["seedrs"] + 1) % 2 ** 31)
        r = Runner(env, scn["prog"], "p", [])
        for op in scn["prog"]["ops"]:
            if op[1] == "neurons":
                r.do(op)
        for op, m in sorted(r.m.items()):
            W = [(f, w) for _, f, w, _ in P.quiet(env, P.snap, m)[0]["neurons"]]
            first = [x for x in ref if x[0][0] == op and x[0][1] == "neurons"][-1]
            rnd.extend((f, w, v) for (f, w), (_, g, v, _) in zip(W, first[2]["neurons"])
                       if f == g and f != "lin" and w.shape == v.shape)
    run2.main("filler", lambda env: None)      # another process id
    run2.main("u", user)
    try:
        k2 = run2.go()
        if k2.stuck or any(p.error for p in k2.procs if "/" not in p.name):
            return ref, rnd, "in a fresh process: %s %s" % (k2.stuck, [p.error for p in k2.procs])
    finally:
        run2.close()
    return ref, rnd, None


SERVERS = {}


def remote(scn):
    """fresh() in a simulator running under an interpreter with another seed of its string hashes"""
    h = scn["hashseed"]
    if h not in SERVERS:
        SERVERS[h] = subprocess.Popen([sys.executable, "-W", "ignore", "-m", "sim.hashserver"], env=dict(os.environ, PYTHONHASHSEED=str(h)),
                                      stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    p = SERVERS[h]
    try:
        pickle.dump(scn, p.stdin)
        p.stdin.flush()
        if not select.select([p.stdout], [], [], 90)[0]:
            raise EOFError("no answer")
        return pickle.load(p.stdout)
    except (EOFError, OSError) as e:
        SERVERS.pop(h).kill()
        raise K.HarnessError("hash server: %r" % e)


class C20(base.Prop):
    id = "C20"
    rule = ("1 run = a program of 5-20 calls on one or two models with generated neurons (every neuron type, training with every kind of "
            "structure selection, files, saving and loading, asynchronous training) is executed in a simulated process in which "
            "programs on other models have run before, and run between its calls, some of them failing (I/O errors, MemoryError, "
            "interrupts), while another process works on other models, at any time of a strange clock, twice; then in a fresh process, "
            "and in one whose interpreter hashes strings differently. "
            "The random state of numpy is the same at the start and left alone by the others. Everything observable after each "
            "call (neurons, weights, accumulations, predictions, errors, return values) must be the same. Non-trivial: distinct "
            "scenario, schedule or fired fault.")
    real = ["hpelm.elm, hpelm.hp_elm, hpelm.mss_*, hpelm.nnets, hpelm.modules", "PyTables/HDF5 (core driver)", "numpy/scipy", "fasteners"]
    stub = ["process scheduler", "random state and entropy of each process", "clock", "disk image exchange and locks", "multiprocessing",
            "delivery of interrupts and memory errors"]
    assumptions = ["random numbers drawn by the other programs are given back (their calls are bracketed by get_state / set_state)",
                   "string hashes: three values of PYTHONHASHSEED (0, 1, 2)"]

    def gen(self, rng, i):
        s = {"prog": gen_program(rng, ["d", "e"]), "seedrs": rng.getrandbits(31),
             "before": [gen_program(rng, ["d", "e", "f"], True) for _ in range(rng.choice([0, 1, 1, 2]))],
             "between": gen_program(rng, ["d", "g"], True) if rng.random() < 0.7 else None,
             "same_names": rng.random() < 0.4, "other": gen_program(rng, ["o"], True) if rng.random() < 0.4 else None,
             "slots": rng.getrandbits(30), "policy": gen.policy(rng, ["seq", "rw", "rw", "rtb"]), "config": {}}
        s["hashseed"] = rng.choice([0, 0, 1, 2])
        for b in s["before"] + [s["between"]]:      # the same calls on other data
            if b and rng.random() < 0.4:
                b.update(copy.deepcopy(s["prog"]))
                for m in b["models"]:
                    m["rs"] += 1
                    if rng.random() < 0.3:
                        m["batch"], m["norm"] = rng.choice([2, 3, 7, 50, None]), rng.choice([0.1, 0.5, 2.0, None])
        if rng.random() < 0.5:
            s["config"]["clock"] = {"tick": rng.choice([0.0, 1e-3, 50.0]), "jumps": [
                [rng.randint(1, 40), rng.choice([-1, 1]) * rng.choice([3.0, 3600.0, 1.6e9])]]}
        return s

    def fault_plans(self, rng, scn, out):
        plans = []
        spans = [x for x in out.spans if x[1] > x[0]]
        pts = [p for p in base.io_points(out, ["u"]) if any(out_in(out, p, a, b) for a, b in spans)]
        for _ in range(3):
            if not spans:
                break
            if pts and rng.random() < 0.3:
                plans.append(([base.io_fault(rng, pts, 0)], None))
                continue
            a, b = rng.choice(spans)
            plans.append(([{"task": "u", "at": ["step", rng.randint(a, b)], "kind": rng.choice(["mem", "mem", "kbd"])}], None))
        return plans

    def body(self, scn, run, out):
        res = {"first": [], "second": []}
        out.spans = []
        box = {}

        def others(env, fn):
            t = env.k.current
            st = np.random.get_state()
            n0 = t.n
            try:
                env.k.armed = True
                fn()
            finally:
                env.k.armed = False
                out.spans.append((n0 + 1, t.n))
                np.random.set_state(st)

        def user(env):
            env.k.armed = False
            rs = np.random.RandomState(scn["slots"])
            np.random.seed(scn["slots"] % 1000)
            sink = []
            for j, prog in enumerate(scn["before"]):
                r = Runner(env, prog, "b%d" % j if not scn["same_names"] else "p", sink)
                for op in prog["ops"]:
                    others(env, lambda: r.do(op))
                if scn["same_names"] and rs.rand() < 0.5:
                    r.m.clear()
                if scn["same_names"]:
                    P.quiet(env, wipe, env)
            q = Runner(env, scn["between"], "q", sink) if scn["between"] else None
            left = list(scn["between"]["ops"]) if q else []
            for rep in ("first", "second"):
                np.random.seed(scn["seedrs"])
                r = Runner(env, scn["prog"], "p", res[rep])
                for op in scn["prog"]["ops"]:
                    while left and rs.rand() < 0.4:
                        o = left.pop(0)
                        others(env, lambda: q.do(o))
                    r.do(op)
                res[rep].append((["state"], np.random.get_state()[2], None, None))
                r.m.clear()
                P.quiet(env, wipe, env)
            box["done"] = True

        def wipe(env):
            import gc
            import os
            if env.k.config.get("_gc"):
                gc.collect()
            for n in sorted(os.listdir(run.dir)):
                if n.startswith("p") and n.endswith(".h5") or n in ("pm0", "pm1"):
                    os.unlink(os.path.join(run.dir, n))

        run.main("u", user)
        if scn["other"]:
            def other(env):
                np.random.seed(3)
                sink = []
                r = Runner(env, scn["other"], "o", sink)
                for op in scn["other"]["ops"]:
                    r.do(op)
            run.main("o", other)
        k = run.go()
        out.nontrivial_history = True
        if k.stuck:
            out.bad("stuck", k.stuck)
            return
        for p in k.procs:
            if p.error and "/" not in p.name:
                out.bad("proc-error", "%s: %s" % (p.name, p.error))
        if out.violations or not box.get("done"):
            return
        k.hash.update(json.dumps([scn["prog"], scn["before"], scn["between"], scn["other"]]).encode())
        ref, rnd, err = fresh(scn)
        if err:
            out.bad("fresh", err)
            return
        box["random"] = rnd
        for f, w, v in box.get("random", []):
            if np.any(w == v):
                out.bad("not-random", "%s neurons %s with two different random states" % (f, w.tolist()))
                return
        if scn.get("hashseed"):
            res["hash"], _, err = remote(scn)
            if err:
                out.bad("fresh", "with PYTHONHASHSEED=%d: %s" % (scn["hashseed"], err))
                return
            k.probe("hashseed")
        tols = [np.inf if m["norm"] is None else 2e-3 if m["precision"] == "single" else 1e-7 for m in scn["prog"]["models"]]
        for rep in ("first", "second") + (("hash",) if "hash" in res else ()):
            for j, (a, b) in enumerate(zip(res[rep], ref)):
                # rounding errors decide about the selected neurons and weights if there is almost no regularisation
                if a[0][0] != "state" and tols[a[0][0]] == np.inf:
                    if a[2] is not None and b[2] is not None and P.diff(a[2], b[2], ("inputs", "outputs", "norm", "cls", "batch",
                                                                                     "precision", "solver")):
                        d = "settings of the model: %s, in a fresh process %s" % (a[2], b[2])
                    else:
                        d = None
                else:
                    d = self.compare(a, b, tols[a[0][0]] if a[0][0] != "state" else 0)
                if d:
                    out.bad("differs", "%s run of the program, call %d %s: %s" % (NAMES[rep], j, a[0], d))
                    return
            if len(res[rep]) != len(ref):
                out.bad("differs", "%s run of the program has %d results, %d in a fresh process" % (NAMES[rep], len(res[rep]), len(ref)))
                return

    def compare(self, a, b, tol):
        if (a[2] is None) != (b[2] is None) or a[3] != b[3]:
            return "state %s / %s" % (a[3], b[3])
        if a[2] is not None:
            bad = P.diff(a[2], b[2], ("inputs", "outputs", "norm", "cls", "neurons", "L", "batch", "precision", "solver"))
            bad += P.diff(a[2], b[2], ("wc", "B", "HH", "HT"), tol)
            if bad:
                return "%s: %s, in a fresh process %s" % (bad[0], str(a[2][bad[0]])[:300], str(b[2][bad[0]])[:300])
        if not same(a[1], b[1], tol):
            return "result %s, in a fresh process %s" % (str(a[1])[:300], str(b[1])[:300])
        return None

    def shrink(self, scn):
        for key in ("other", "between", "hashseed"):
            if scn.get(key):
                s = copy.deepcopy(scn)
                s[key] = None
                yield s
        for i in range(len(scn["before"])):
            s = copy.deepcopy(scn)
            del s["before"][i]
            yield s
        for i in range(len(scn["prog"]["ops"]) - 1, -1, -1):
            s = copy.deepcopy(scn)
            del s["prog"]["ops"][i]
            yield s
        if scn["config"] or scn["policy"] != {"kind": "seq"}:
            s = copy.deepcopy(scn)
            s.update(config={}, policy={"kind": "seq"})
            yield s


def same(a, b, tol):
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b) and all(
            same(x, y, tol) for x, y in zip(a, b))
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a is b or a == b
    return P.eq(a, b, tol)


def out_in(out, p, a, b):
    t, kind, lab, nth = p
    for e in out.events:
        if e[0] == t and e[2] == kind and e[3] == lab and e[4] == nth:
            return a <= e[1] <= b
    return False


PROP = C20()
