"""Workload shared by C07 and C08: models are saved and loaded by simulated processes."""
import copy

import numpy as np

from .. import gen, kernel as K, refmodel as R


def class_weights(rng, c):
    return [rng.choice([1.0, 1.0, 1e-7, 1e5]) * rng.uniform(0.2, 5) for _ in range(c)]


def gen_model(rng, d=None):
    d = d or gen.size(rng, 1, 3, [8, 20, 33])
    cls = rng.choice(["", "", "c", "wc", "ml"])
    c = gen.size(rng, 2, 3, [5, 12]) if cls else gen.size(rng, 1, 3, [5, 12])
    L = rng.choice([0, 1, 2, 4, 6, 40])
    return {"kind": rng.choice(["ELM", "HPELM"]), "acc": rng.choice([None, "basic"]), "inputs": d, "outputs": c,
            "cls": cls, "w": class_weights(rng, c) if cls == "wc" and rng.random() < 0.6 else None,
            "norm": rng.choice([None, 0.1, 1.0, 1e-3, 25.0, None, 0.1, 1.0, 1e-3, 25.0, 0.0]), "precision": rng.choice(["double", "double", "single"]),
            "batch": rng.choice([1, 3, 1000]), "neurons": gen.any_neurons(rng, d, L) if L else [],
            "trained": rng.choice(["train", "train", "add", "", "set"]), "data": rng.getrandbits(30),
            "pruned": L > 2 and rng.random() < 0.15, "scale": rng.choice([1.0, 1.0, 1.0, 0.0, 1e-9, 1e9])}


def data_of(m, seed, n=9):
    rs = np.random.RandomState(seed % (2 ** 31))
    X = rs.randn(n, m["inputs"])
    if m["cls"] in ("c", "wc"):
        T = np.zeros((n, m["outputs"]))
        T[np.arange(n), np.arange(n) % m["outputs"]] = 1
    elif m["cls"] == "ml":
        T = (rs.rand(n, m["outputs"]) > 0.5) * 1.0
    else:
        T = rs.randn(n, m["outputs"])
    return X, T


def make(env, m):
    h = env.hpelm
    kw = {} if m["acc"] is None else {"accelerator": m["acc"]}
    if m["acc"] == "basic":
        kw["accelerator"] = "basic"
    o = getattr(h, m["kind"])(m["inputs"], m["outputs"], classification=m["cls"], w=m["w"], norm=m["norm"],
                              precision=m["precision"], batch=m["batch"], **kw)
    for f, W, B in gen.np_neurons(m["neurons"]):
        o.add_neurons(W.shape[1], f, W, B)
    X, T = data_of(m, m["data"])
    if not m["cls"]:
        T = T * m.get("scale", 1.0)
    if m["neurons"]:
        if m["trained"] == "train":
            kw = {"w": m["w"]} if m["w"] is not None else {}
            o.train(X, T, *([m["cls"]] if m["cls"] else []), **kw)
        elif m["trained"] == "add":
            o.add_data(X, T)
        elif m["trained"] == "set":
            rs = np.random.RandomState(m["data"] % 999)
            o.nnet.set_B(rs.randn(o.nnet.L, m["outputs"]) * m.get("scale", 1.0))
        if m["pruned"]:
            o.nnet._prune([0])
            o.nnet.set_B(np.ones((1, m["outputs"])))
    return o


def snap(o):
    """everything that makes a model, as plain values"""
    n = o.nnet
    B = n.get_B()
    return {"inputs": n.inputs, "outputs": n.outputs, "norm": float(n.norm), "cls": o.classification,
            "wc": None if o.wc is None else np.array(o.wc, float),
            "neurons": [(int(k), f if isinstance(f, (str, np.ufunc)) else repr(f), np.array(W, float), np.array(b, float))
                        for k, f, W, b in n.neurons],
            "B": None if B is None else np.array(B, float),
            "L": n.L, "batch": o.batch, "precision": str(np.dtype(o.precision)), "solver": type(n).__name__,
            "HH": None if n.HH is None else np.array(n.HH, float), "HT": None if n.HT is None else np.array(n.HT, float)}


MODEL_KEYS = ("inputs", "outputs", "norm", "cls", "wc", "neurons", "B")


def diff(a, b, keys=None, tol=0.0):
    """names of the parts in which two snapshots differ"""
    out = []
    for k in keys or sorted(a):
        x, y = a[k], b[k]
        if k == "neurons":
            ok = len(x) == len(y) and all(p[:2] == q[:2] and eq(p[2], q[2], tol) and eq(p[3], q[3], tol)
                                          for p, q in zip(x, y))
        elif k == "norm":
            ok = abs(x - y) <= 1e-15 + tol * abs(x)
        elif k == "wc" and x is not None and y is not None:
            ok = np.shape(x) == np.shape(y) and bool(np.all(np.abs(x - y) <= tol * np.abs(x)))
        elif isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            ok = x is not None and y is not None and eq(x, y, tol)
        else:
            ok = x == y
        if not ok:
            out.append(k)
    return out


def eq(a, b, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    if tol == 0:
        return bool(np.array_equal(a, b))
    return R.close(a, b, tol, tol)


def quiet(env, fn, *a):
    """run oracle code of a simulated process without yield points"""
    env.k.quiet += 1
    try:
        return fn(*a), None
    except K.SimKilled:
        raise
    except Exception as e:
        return None, "%s: %s" % (type(e).__name__, e)
    finally:
        env.k.quiet -= 1


def predictions(o, X):
    return np.array(o.predict(X), float)


def further(o, X, T):
    """train further from a clean accumulation; returns the new weights"""
    o.nnet.reset()
    o.add_data(X, T)
    o.nnet.solve()
    return np.array(o.nnet.get_B(), float)


def shrink_model(m):
    for key, val in (("cls", ""), ("norm", 1.0), ("precision", "double"), ("trained", "set"), ("acc", None),
                     ("pruned", False), ("kind", "ELM")):
        if m[key] != val and not (key == "cls" and m["w"] is not None):
            x = copy.deepcopy(m)
            x[key] = val
            yield x
