"""C08 An interrupted save or truncated model file never yields a wrong model."""
import copy
import os

import numpy as np

from .. import gen, kernel as K
from . import base, persist as P


class C08(base.Prop):
    id = "C08"
    rule = ("1 run = a simulated process saves a model (sometimes over an earlier one, or after loading it) and is "
            "killed at a random source line or file operation, also inside a write; or the file is cut at a random "
            "byte; then other processes load the file (or truncated bytes) into random trained/untrained objects, with "
            "I/O errors, memory errors and interrupts at random lines of the load. The loaded object must be exactly "
            "the old or the new model, an object whose load failed exactly what it was. Non-trivial: a fault fired or "
            "the file was cut.")
    real = ["hpelm.elm save/load/dumps/loads, hpelm.hp_elm, hpelm.nnets", "pickle, io buffering", "numpy"]
    stub = ["raw file reads/writes/close", "process scheduler and death", "clock"]
    assumptions = ["process kill, not power loss: bytes handed to the OS survive in order"]

    def gen(self, rng, i):
        m = P.gen_model(rng)
        same = rng.random() < 0.5
        old = None
        if rng.random() < 0.6:
            old = copy.deepcopy(m) if same else P.gen_model(rng)
            old["data"] = rng.getrandbits(30)
            if same and rng.random() < 0.5:
                old["trained"] = rng.choice(["train", "set"])
            if same and rng.random() < 0.6:        # same shapes, other parameters
                old["neurons"] = [[f, [[round(-v + 0.25, 3) for v in r] for r in W], [v + 0.125 for v in B]]
                                  for f, W, B in old["neurons"]]
                if old["w"] is not None:
                    old["w"] = P.class_weights(rng, old["outputs"])
                if rng.random() < 0.5:
                    old["norm"] = rng.choice([None, 0.1, 1.0, 1e-3, 25.0])
        recv = [P.gen_model(rng, rng.choice([m["inputs"], None])) for _ in range(rng.choice([1, 2]))]
        if rng.random() < 0.5:
            recv[0]["trained"] = "train"
        return {"old": old, "new": m, "recv": recv, "via": rng.choice(["file", "file", "file", "bytes"]),
                "cut": None, "policy": gen.policy(rng),
                "config": {"bufsize": rng.choice([None, None, 16, 64, 300])}}

    def fault_plans(self, rng, scn, out):
        plans = []
        ev = [e for e in out.events if e[0] == "saver"]
        loaders = [t for t in out.task_n if t.startswith("l")]
        for _ in range(5):
            faults = []
            r = rng.random()
            if r < 0.35:
                faults.append({"task": "saver", "at": ["step", base.pick_steps(rng, out, ["saver"], 1, 0.8)[0][1]],
                               "kind": "kill"})
            elif r < 0.6:
                w = [e for e in ev if e[2] == "fwrite"]
                if w:
                    e = rng.choice(w)
                    faults.append({"task": "saver", "at": ["op", "fwrite", e[3], e[4]], "kind": "killmid",
                                   "frac": rng.random()})
            elif r < 0.8:
                faults.append({"task": "cut", "at": ["none"], "kind": "cut", "frac": rng.random()})
            if rng.random() < 0.5 or not faults:
                t = rng.choice(loaders)
                if rng.random() < 0.4:
                    pts = base.io_points(out, [t])
                    if pts:
                        faults.append(base.io_fault(rng, pts))
                else:
                    # the load is the last part of a loader
                    n = out.task_n[t]
                    faults.append({"task": t, "at": ["step", rng.randint(max(1, n - 40), n)],
                                   "kind": rng.choice(["kbd", "mem", "mem"])})
            plans.append((faults, None if rng.random() < 0.5 else gen.policy(rng)))
        return plans

    def body(self, scn, run, out):
        snaps = {}
        k = run.k
        path = run.path("m.pkl")
        box = {}

        def saver(env):
            if scn["old"] is not None:
                m = P.make(env, scn["old"])
                snaps["old"] = P.quiet(env, P.snap, m)[0]
                m.save(env.path("m.pkl"))
            m = P.make(env, scn["new"])
            snaps["new"] = P.quiet(env, P.snap, m)[0]
            if scn["via"] == "file":
                box["started"] = True
                m.save(env.path("m.pkl"))
                box["ended"] = True
            else:
                box["bytes"] = m.dumps()

        def loader(env, n):
            o = P.make(env, scn["recv"][n])
            before, err = P.quiet(env, P.snap, o)
            X, _ = P.data_of(scn["recv"][n], 5, 6)
            y0, e0 = P.quiet(env, P.predictions, o, X)
            try:
                if scn["via"] == "file":
                    o.load(env.path("m.pkl"))
                else:
                    o.loads(box.get("bytes", b""))
                err = None
            except K.SimKilled:
                raise
            except BaseException as e:
                err = "%s: %s" % (type(e).__name__, e)
            env.rec(ev="load", err=err)
            after, e2 = P.quiet(env, P.snap, o)
            if e2:
                out.bad("unusable", "after load (%s) the object is unusable: %s" % (err, e2))
                return
            if err is not None:
                d = P.diff(before, after)
                if d:
                    out.bad("half-loaded", "load failed (%s) and changed %s of the object" % (err, d))
                    return
                y1, e1 = P.quiet(env, P.predictions, o, X)
                if bool(e0) != bool(e1) or (not e0 and not np.array_equal(y0, y1)):
                    out.bad("half-loaded", "load failed (%s) and changed the predictions of the object" % err)
                return
            ok = []
            for name, s in snaps.items():
                src = scn[name]
                single = "single" in (src["precision"], scn["recv"][n]["precision"])
                d = P.diff(s, after, P.MODEL_KEYS, 1e-6 if single else 0.0)
                if not d:
                    return
                ok.append("differs from the %s model in %s" % (name, d))
            out.bad("wrong-model", "load returned, and the model %s" % "; ".join(ok))

        sv = run.main("saver", saver)

        def ready():
            if not sv.ended:
                return False
            if "cut" not in box:
                box["cut"] = None
                for f in k.faults:
                    if f["kind"] == "cut":
                        f["_fired"] = True
                        k.fired["cut"] = k.fired.get("cut", 0) + 1
                        if scn["via"] == "file" and os.path.exists(path):
                            size = os.path.getsize(path)
                            os.truncate(path, int(size * f["frac"]))
                        elif "bytes" in box:
                            box["bytes"] = box["bytes"][:int(len(box["bytes"]) * f["frac"])]
            return True
        for n in range(len(scn["recv"])):
            run.main("l%d" % n, lambda env, n=n: loader(env, n), after=ready)
        run.go()
        if k.stuck:
            out.bad("stuck", k.stuck)
        for p in k.procs:
            if p.error and p.name == "saver" and not any(f["kind"] in ("kbd", "mem") for f in k.faults):
                out.bad("proc-error", "%s: %s" % (p.name, p.error))
        if not any(f["_fired"] for f in k.faults):
            for r in run.log:
                if r.get("err"):
                    out.bad("load-failed", "load of a whole file failed: %s" % r["err"])

    def shrink(self, scn):
        if len(scn["recv"]) > 1:
            for n in range(len(scn["recv"])):
                s = copy.deepcopy(scn)
                s["recv"].pop(n)
                yield s
        if scn["old"] is not None:
            s = copy.deepcopy(scn)
            s["old"] = None
            yield s
        for key in ("new", "old"):
            if scn[key] is not None:
                for m in P.shrink_model(scn[key]):
                    s = copy.deepcopy(scn)
                    s[key] = m
                    yield s
        for n in range(len(scn["recv"])):
            for m in P.shrink_model(scn["recv"][n]):
                s = copy.deepcopy(scn)
                s["recv"][n] = m
                yield s


PROP = C08()
