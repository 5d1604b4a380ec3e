"""Workload shared by C01-C03: several processes accumulate into one pair of
HH/HT files; the files are decoded into the multiset of contributions."""
import copy
import itertools
import os

import numpy as np

from .. import engine, gen, kernel as K, refmodel as R


NAMES = [["HH.h5", "HT.h5"]] * 4 + [["acc.HH", "acc.HT"], ["m.h5", "m2.h5"], ["HH", "HT"], ["a.b.h5", "a.c.h5"], ["HT.h5", "HH.h5"],
                               ["sub/HH.h5", "sub/HT.h5"]]


def gen_scn(rng, max_workers=4, faulty=False):
    d = gen.size(rng, 1, 3, [8, 20, 33])
    cls = rng.choice([None, None, "c", "wc"])
    c = gen.size(rng, 1, 3, [5, 12]) if cls is None else gen.size(rng, 2, 3, [5, 11])
    L = gen.size(rng, 2, 4, [12, 40, 130])
    nw = rng.choice([2, 2, 3, 3, max_workers]) if not faulty else rng.choice([1, 2, 2, 3])
    batch = rng.choice([1, 2, 3, 5, 100])
    workers = []
    pos = 0
    large = rng.random() < 0.02              # around the default batch size
    many = not large and rng.random() < 0.12     # many batches in a call
    for i in range(nw):
        calls = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            n = rng.randint(8, 40) if many else rng.randint(1, 5) if not large else rng.choice([300] + gen.BIG)
            calls.append({"istart": pos, "icount": n, "async": rng.random() < 0.12})
            if not calls[-1]["async"] and rng.random() < 0.12:
                calls[-1]["mem"] = True      # data in memory
            pos += n
        w = {"name": "w%d" % i, "calls": calls, "model": rng.choice(["new", "new", "load", "basic"]),
             "batch": rng.choice([batch, batch, 1, 2, 4]), "after": []}
        if large:
            w["batch"] = rng.choice([1000, 1000, 400, 5000])
        if many:
            w["batch"] = rng.choice([1, 1, 2, 3])
        w["spell"] = rng.choice(["", "", "", "./", "sub/../", "rel", "abs"])
        if i and rng.random() < 0.15:
            w["after"] = ["w%d" % rng.randrange(i)]
        workers.append(w)
    extra = rng.choice([0, 0, 2])            # rows nobody adds
    N = pos + extra
    if rng.random() < 0.4 and not extra:     # the last range left open-ended
        workers[-1]["calls"][-1]["icount"] = None
    T = gen.big(rng, N, c, bool(cls)) if large else gen.onehot(rng, N, c) if cls else gen.int_matrix(rng, N, c)
    scn = {"inputs": d, "outputs": c, "cls": cls, "L": L, "batch": batch,
           "norm": rng.choice([0.5, 1.0, 2.0, 0.25, 8.0]),
           "precision": rng.choice(["double", "double", "single"]) if not large and d < 20 else "double",
           "names": rng.choice(NAMES), "w": [rng.choice([1.0, 4.0, 0.25, 16.0]) for _ in range(c)] if cls == "wc" else None,
           "neurons": gen.lin_neurons(rng, d, L),
           "X": gen.big(rng, N, d) if large else gen.int_matrix(rng, N, d), "T": T, "workers": workers,
           "pre": rng.choice([None, None, None, None, "both", "resume", "HH", "HT", "locks"]),
           "solve": rng.choice(["new", "load"]),
           "policy": gen.policy(rng),
           "config": {"flock": rng.random() < 0.8}}
    if any(cc["async"] for w in workers for cc in w["calls"]):
        scn["config"]["pipe_cap"] = rng.choice([65536, 65536, 1])
    return scn


class Accum:
    def __init__(self, scn, run):
        self.scn, self.run = scn, run
        self.X = gen.mat(scn["X"])
        self.T = gen.mat(scn["T"])
        self.neurons = gen.np_neurons(scn["neurons"])
        self.fHH, self.fHT = scn.get("names") or ["HH.h5", "HT.h5"]
        self.exact = True
        self.contrib = {}          # call id -> (dHH, dHT)
        self.calls = []
        self.expect_files = False
        for w in scn["workers"] + ([scn["late"]] if scn.get("late") else []):
            for j, c in enumerate(w["calls"]):
                a = c["istart"]
                b = len(self.X) if c["icount"] is None else a + c["icount"]
                wc = scn["w"] if scn["cls"] == "wc" else None
                cid = "%s.%d" % (w["name"], j)
                self.calls.append(cid)
                self.contrib[cid] = R.corr(self.X[a:b], self.T[a:b], self.neurons, wc)
        self.base = (np.eye(scn["L"]) * scn["norm"], np.zeros((scn["L"], scn["outputs"])))
        self.pre_ids = []
        self.span = {}             # call id -> event indexes of its start and end
        self.status = {}           # call id -> "ok" | "exc:..." | "running"

    # ---- pieces of simulated user code
    def make(self, env, kind="new"):
        s = self.scn
        kw = {"accelerator": "basic"} if kind == "basic" else {}
        m = env.hpelm.HPELM(s["inputs"], s["outputs"], classification=s["cls"] or "",
                            w=s["w"], batch=s["batch"], norm=s["norm"], precision=s["precision"],
                            tprint=s.get("tprint", 5), **kw)
        if kind == "load":
            m.load(env.path("model.pkl"))
        else:
            for f, W, B in self.neurons:
                m.add_neurons(W.shape[1], f, W, B)
        return m

    def setup(self):
        s, run = self.scn, self.run
        os.makedirs(run.path("sub"), exist_ok=True)
        engine.write_h5(run.path("X.h5"), self.X, "float32" if s["precision"] == "single" else None)
        engine.write_h5(run.path("T.h5"), self.T, "float32" if s["precision"] == "single" else None)
        dt = "float32" if s["precision"] == "single" else "float64"
        if s["pre"] in ("both", "HH"):
            engine.write_h5(run.path(self.fHH), self.base[0], dt)
        if s["pre"] in ("both", "HT"):
            engine.write_h5(run.path(self.fHT), self.base[1], dt)
        if s["pre"] == "resume":       # an earlier session's data is in the files
            rs = np.random.RandomState(7)
            X0, T0 = rs.randint(-3, 4, (5, s["inputs"])) * 1.0, rs.randint(-3, 4, (5, s["outputs"])) * 1.0
            c = R.corr(X0, T0, self.neurons)
            self.base = (self.base[0] + c[0], self.base[1] + c[1])
            engine.write_h5(run.path(self.fHH), self.base[0], dt)
            engine.write_h5(run.path(self.fHT), self.base[1], dt)
        if s["pre"] == "locks":        # lock files left behind by an earlier session
            for n in (self.fHH + ".lock", self.fHT + ".lock"):
                open(run.path(n), "wb").close()
        ws = s["workers"] + ([s["late"]] if s.get("late") else [])
        if any(w["model"] == "load" for w in ws) or s["solve"] == "load":
            self.setup_proc = run.main("setup", self._setup_main)
        else:
            self.setup_proc = None
        self.procs = {}
        for w in s["workers"]:
            deps = list(w["after"])
            self.procs[w["name"]] = run.main(w["name"], lambda env, w=w: self.worker(env, w),
                                             after=self._after(deps))

    def _after(self, deps):
        def ready():
            if self.setup_proc is not None and not self.setup_proc.ended:
                return False
            return all(self.procs[d].ended for d in deps)
        return ready

    def _setup_main(self, env):
        m = self.make(env)
        m.save(env.path("model.pkl"))

    def worker(self, env, w):
        m = self.make(env, w["model"])
        m.batch = w["batch"]
        if w.get("peek"):
            self.peek(env, w)
        for j, c in enumerate(w["calls"]):
            ok = self.call(env, m, w, j, c)
            for r in range(w.get("retry", 0)):
                if ok:
                    break
                if w.get("fresh"):             # with a new model object
                    m = self.make(env, w["model"])
                    m.batch = w["batch"]
                cid = "%s.%d" % (w["name"], j)
                new = cid + "r%d" % r
                self.calls.append(new)
                self.contrib[new] = self.contrib[cid]
                ok = self.call(env, m, w, j, c, new)

    def peek(self, env, w):
        """read the files before adding to them"""
        env.k.quiet += 1
        try:
            there = all(os.path.exists(env.path(f)) for f in (self.fHH, self.fHT))
        finally:
            env.k.quiet -= 1
        m = self.make(env)
        a = len(env.k.events)
        try:
            if w["peek"] == "validation_corr":
                m.validation_corr(env.path(self.fHH), env.path(self.fHT), self.X[:20], self.T[:20], steps=2)
            else:
                m.solve_corr(env.path(self.fHH), env.path(self.fHT))
            r = "ok"
        except K.SimKilled:
            raise
        except BaseException as e:
            r = "%s: %s" % (type(e).__name__, e)
        env.rec(ev="peek", r=r)
        self.peeked = (w["name"], a, len(env.k.events), r, there)

    def call(self, env, m, w, j, c, cid=None):
        cid = cid or "%s.%d" % (w["name"], j)
        env.rec(ev="call", id=cid)
        self.status[cid] = "running"
        self.span[cid] = [len(env.k.events), None]
        kw = {} if c["icount"] is None else {"icount": c["icount"]}
        fn = m.add_data_async if c["async"] else m.add_data
        sp = w.get("spell", "")
        # the same file under several names
        fHH, fHT = [f if sp == "rel" else os.path.join(self.run.dir, f) if sp == "abs" else env.path(sp + f)
                    for f in (self.fHH, self.fHT)]
        try:
            X, T = (self.X, self.T) if c.get("mem") else (env.path("X.h5"), env.path("T.h5"))
            r = fn(X, T, istart=c["istart"],
                   fHH=fHH, fHT=fHT, **kw)
        except K.SimKilled:
            raise
        except BaseException as e:
            self.status[cid] = "exc:%s: %s" % (type(e).__name__, e)
            self.span[cid][1] = len(env.k.events)
            env.rec(ev="exc", id=cid, err=repr(e))
            return False
        self.status[cid] = "ok"
        self.span[cid][1] = len(env.k.events)
        env.rec(ev="ret", id=cid)
        env.k.quiet += 1
        try:
            HH, HT = m.nnet.get_corr()
            self.status[cid + ":mem"] = (np.array(HH, float), np.array(HT, float))
        except Exception as e:
            self.status[cid + ":mem"] = repr(e)
        finally:
            env.k.quiet -= 1
        return True

    def solver(self, env, kind=None):
        m = self.make(env, kind or self.scn["solve"])
        try:
            m.solve_corr(env.path(self.fHH), env.path(self.fHT))
            self.B = np.array(m.nnet.get_B(), float)
            self.Y = np.array(m.predict(self.X), float)
        except K.SimKilled:
            raise
        except BaseException as e:
            self.B = repr(e)

    # ---- judging
    def files(self):
        HH, e1 = engine.read_h5(self.run.path(self.fHH))
        HT, e2 = engine.read_h5(self.run.path(self.fHT))
        return HH, HT, e1, e2

    def sums(self, ids, extra=()):
        HH, HT = self.base[0].copy(), self.base[1].copy()
        for i in ids:
            HH += self.contrib[i][0]
            HT += self.contrib[i][1]
        return HH, HT

    def same(self, M, S):
        M = np.asarray(M, float)
        return M.shape == S.shape and bool(np.array_equal(M, S))

    def explain(self, M, which):
        """which multiset of contributions does a wrong matrix hold?"""
        ids = self.calls
        for mult in itertools.product((0, 1, 2), repeat=len(ids) + 1):
            S = self.base[which] * mult[0]
            for m, i in zip(mult[1:], ids):
                S = S + m * self.contrib[i][which]
            if self.same(M, S):
                return "base x%d, %s" % (mult[0], ", ".join("%s x%d" % (i, m) for m, i in zip(mult[1:], ids)))
        return "no combination of contributions: %s" % np.asarray(M).tolist()

    def check_mem(self, out):
        """a worker's own accumulation describes just its own rows"""
        s = self.scn
        for cid in self.calls:
            mem = self.status.get(cid + ":mem")
            if mem is None:
                continue
            if isinstance(mem, str):
                out.bad("memory", "%s: get_corr failed: %s" % (cid, mem))
                continue
            HH = np.eye(s["L"]) * s["norm"] + self.contrib[cid][0]
            if not (self.same(mem[0], HH) and self.same(mem[1], self.contrib[cid][1])):
                out.bad("memory", "%s: in-memory accumulation is HH=%s HT=%s, expected HH=%s HT=%s" % (
                    cid, mem[0].tolist(), mem[1].tolist(), HH.tolist(), self.contrib[cid][1].tolist()))

    def check_solution(self, out, ids, cls="solution"):
        B = getattr(self, "B", None)
        if B is None:
            return
        if isinstance(B, str):
            out.bad(cls, "solving from the files failed: %s" % B)
            return
        HH, HT = self.sums(ids)
        tol = 1e-7 if self.scn["precision"] == "double" else 3e-2
        if np.linalg.cond(HH) > (1e8 if self.scn["precision"] == "double" else 1e3):
            return
        Bref = np.linalg.solve(HH, HT)
        if not R.close(B, Bref, tol, tol):
            out.bad(cls, "solution from the files differs from the sequential one: %s != %s" % (B.tolist(), Bref.tolist()))
            return
        Y = R.hidden(self.X, self.neurons) @ Bref
        if not R.close(self.Y, Y, tol * 10, tol * 10):
            out.bad(cls, "prediction differs from the sequentially trained model")


def shrink(scn):
    """structural simplifications for the minimiser"""
    for i in range(len(scn["workers"])):
        if len(scn["workers"]) > 1:
            s = copy.deepcopy(scn)
            gone = s["workers"].pop(i)["name"]
            for w in s["workers"]:
                w["after"] = [x for x in w["after"] if x != gone]
            yield s
    for i, w in enumerate(scn["workers"]):
        if len(w["calls"]) > 1:
            for j in range(len(w["calls"])):
                s = copy.deepcopy(scn)
                del s["workers"][i]["calls"][j]
                yield s
        for key, val in (("after", []), ("model", "new")):
            if w[key] != val:
                s = copy.deepcopy(scn)
                s["workers"][i][key] = val
                yield s
        for j, c in enumerate(w["calls"]):
            if c["async"]:
                s = copy.deepcopy(scn)
                s["workers"][i]["calls"][j]["async"] = False
                yield s
            if c.get("mem"):
                s = copy.deepcopy(scn)
                s["workers"][i]["calls"][j]["mem"] = False
                yield s
        if w.get("spell"):
            s = copy.deepcopy(scn)
            s["workers"][i]["spell"] = ""
            yield s
    for key, val in (("pre", None), ("precision", "double"), ("solve", "new"), ("batch", 100)):
        if scn[key] != val:
            s = copy.deepcopy(scn)
            s[key] = val
            yield s


# --------------------------------------------------------- faulty histories ---
class Publications:
    """who published which accumulation file during which call, and what its
    task did afterwards"""

    def __init__(self, A):
        self.A = A
        k = A.run.k
        self.now = {}              # task name -> call id in progress
        self.pub = {}              # call id -> list of (label, event index)
        k.config.setdefault("_publish", []).append(self._publish)

    def _publish(self, k, proc, lab):
        t = k.current
        if t is None:
            return
        for r in reversed(self.A.run.log):
            if r["proc"] == proc.name and r.get("ev") == "call":
                self.pub.setdefault(r["id"], []).append((lab, len(k.events)))
                break

    def pair_window(self, cid, events, name, end=None):
        """the name of the one file of the pair that the call published, if it had not tried to write the other one
        before that, and was only working on the pair of files between the publication and its end"""
        p = self.pub.get(cid, [])
        both = (self.A.fHH, self.A.fHT)
        labs = {l for l, _ in p if l in both}
        if len(labs) != 1:
            return None
        one = labs.pop()
        other = both[1 - both.index(one)]
        last = max(i for l, i in p if l == one)
        for e in events[self.A.span[cid][0]:last]:
            if e[0] == name and e[3] == other and e[2] in ("h5write", "h5append", "h5flush"):
                return None
        for e in events[last:end]:
            if e[0] != name or e[2].startswith("h5close"):
                continue               # a call that fails closes the files of its data
            if not (e[3].startswith(self.A.fHH) or e[3].startswith(self.A.fHT) or e[2] == "sleep" or e[3] == "sub"):
                return None
        return one


def judge_pair(A, out, must, may, window, kf_id):
    """the files hold base + every call in `must` + a subset of `may`, the same
    subset in both files; a call in `window` may be in one file alone, the one given there: a listed finding.
    Returns the subset, or None."""
    HH, HT, e1, e2 = A.files()
    A.missing = False
    pre = {"both": "HHHT", "resume": "HHHT", "HH": "HH", "HT": "HT"}.get(A.scn.get("pre"), "")
    for w, n, M, e in ((0, "HH", HH, e1), (1, "HT", HT, e2)):
        if M is None:
            if e.startswith("FileNotFound") and not must and not A.expect_files and n not in pre:
                A.missing = True       # no call stored it: the same as a file that holds nothing
                continue
            out.bad("file-" + n, "%s file: %s" % (n, e))
    if out.violations:
        return None
    z = A.sums(())
    HH, HT = (z[w] if M is None else M for w, M in ((0, HH), (1, HT)))
    b = A.sums(must)
    cand = {0: [], 1: []}
    for mult in itertools.product((0, 1), repeat=len(may)):
        ids = [i for m, i in zip(mult, may) if m]
        for w, M in ((0, HH), (1, HT)):
            S = b[w]
            for i in ids:
                S = S + A.contrib[i][w]
            if A.same(M, S):
                cand[w].append(frozenset(ids))
    for w, n, M in ((0, "HH", HH), (1, "HT", HT)):
        if not cand[w]:
            out.bad("file-" + n, "%s holds %s; completed: %s; may be in: %s" % (n, A.explain(M, w), sorted(must), sorted(may)))
    if not (cand[0] and cand[1]):
        return None
    both = [s for s in cand[0] if s in cand[1]]
    if both:
        return sorted(both, key=len)[0]
    for s0 in cand[0]:
        for s1 in cand[1]:
            if all(window.get(i) == A.fHH for i in s0 - s1) and all(window.get(i) == A.fHT for i in s1 - s0):
                out.kf(kf_id, "; ".join("%s in %s but not in %s" % (", ".join(sorted(a)), x, y)
                                        for a, x, y in ((s0 - s1, "HH", "HT"), (s1 - s0, "HT", "HH")) if a))
                return None
    out.bad("pair", "HH holds %s and HT holds %s of the calls that may be in" % (
        [sorted(s) for s in cand[0]], [sorted(s) for s in cand[1]]))
    return None


def small_scn(**kw):
    """the smallest fixed scenario, for probes of listed findings"""
    s = {"inputs": 1, "outputs": 1, "cls": None, "L": 2, "batch": 10, "norm": 1.0, "precision": "double", "w": None,
         "neurons": [["lin", [[1, 2]], [1, -1]]], "X": [[1], [2], [3], [1]], "T": [[1], [2], [1], [3]],
         "workers": [{"name": "w0", "calls": [{"istart": 0, "icount": 2, "async": False}], "model": "new",
                      "batch": 10, "after": []}],
         "late": {"name": "late", "calls": [{"istart": 2, "icount": 2, "async": False}], "model": "new", "batch": 10,
                  "after": []},
         "pre": "both", "solve": "new", "policy": {"kind": "seq"}, "config": {"flock": True}, "seed": 1}
    s.update(kw)
    return s
