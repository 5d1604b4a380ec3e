"""Seeded generators shared by the properties.  Everything a scenario needs is
plain JSON so that the replay file is self-contained."""
import numpy as np


def size(rng, lo, hi, wide, p=0.04):
    """a small dimension; rarely a wide one"""
    return rng.choice(wide) if rng.random() < p else rng.randint(lo, hi)


def lin_neurons(rng, inputs, L):
    """integer linear neurons: all sums are exact in floating point"""
    out, left = [], L
    while left:
        n = rng.randint(1, left) if rng.random() < 0.3 else left
        W = [[rng.choice([-2, -1, 0, 1, 2, 3]) for _ in range(n)] for _ in range(inputs)]
        B = [rng.choice([-2, -1, 1, 2]) for _ in range(n)]
        out.append(["lin", W, B])
        left -= n
    return out


FUNCS = ["lin", "sigm", "tanh", "rbf_l1", "rbf_l2", "rbf_linf"]
UFUNCS = {"ufunc:sin": np.sin, "ufunc:arctan": np.arctan}


def any_neurons(rng, inputs, L, funcs=FUNCS):
    out, left = [], L
    while left:
        n = rng.randint(1, left)
        f = rng.choice(funcs) if funcs is not FUNCS or rng.random() < 0.93 else rng.choice(sorted(UFUNCS))
        W = [[round(rng.uniform(-1.5, 1.5), 3) for _ in range(n)] for _ in range(inputs)]
        B = [round(rng.uniform(-1, 1), 3) for _ in range(n)]
        if f.startswith("rbf"):
            B = [round(rng.uniform(0.5, 3.0), 3) for _ in range(n)]
        out.append([f, W, B])
        left -= n
    return out


def int_matrix(rng, n, d, lo=-3, hi=4):
    return [[rng.randint(lo, hi) for _ in range(d)] for _ in range(n)]


def onehot(rng, n, c, cover=True):
    rows = []
    for i in range(n):
        j = i % c if (cover and i < c) else rng.randrange(c)
        r = [0] * c
        r[j] = 1
        rows.append(r)
    rng.shuffle(rows)
    return rows


def policy(rng, kinds=None):
    r = rng.random()
    kind = kinds[rng.randrange(len(kinds))] if kinds else (
        "rw" if r < 0.55 else "pct" if r < 0.8 else "rtb" if r < 0.95 else "seq")
    if kind == "rw":
        return {"kind": "rw", "p": rng.choice([0.0, 0.005, 0.02, 0.06, 0.2]),
                "q": rng.choice([0.05, 0.15, 0.4]),
                "hot": rng.choice([None, ["lock", "h5open", "h5closed"], ["stat", "replace"], ["h5read", "h5write"],
                                   ["qput", "qget"]]),
                "timer_p": rng.choice([0.02, 0.1, 0.4])}
    if kind == "pct":
        return {"kind": "pct", "d": rng.randint(1, 4), "span": rng.choice([100, 400, 1200])}
    return {"kind": kind, "timer_p": rng.choice([0.02, 0.1, 0.4])}


def np_neurons(ns):
    return [(UFUNCS.get(f, f), np.array(W, dtype=float), np.array(B, dtype=float)) for f, W, B in ns]


def mat(spec):
    """matrix of a scenario: a list of rows, or a seeded description of a large one"""
    if not isinstance(spec, dict):
        return np.array(spec, dtype=float)
    rs = np.random.RandomState(spec["rs"] % (2 ** 31))
    n, d = spec["n"], spec["d"]
    if spec.get("onehot"):
        return np.eye(d)[np.concatenate((np.arange(d), rs.randint(0, d, n - d)))]
    return rs.randint(-3, 5, (n, d)) * 1.0


def big(rng, n, d, onehot=False):
    return {"rs": rng.getrandbits(30), "n": n, "d": d, "onehot": onehot}


ORDERS = ["C", "C", "F", "step", "neg"]


def lay(A, o):
    """the same matrix in another memory layout"""
    if o == "F":
        return np.asfortranarray(A)
    if o == "step":
        return np.repeat(A, 2, axis=0)[::2]
    if o == "neg":
        return np.ascontiguousarray(A[::-1])[::-1]
    if o == "ro":
        A = A.copy()
        A.flags.writeable = False
        return A
    if o == "one" and A.shape[1] == 1:
        return A[:, 0].copy()
    return A


def nrows(spec):
    return spec["n"] if isinstance(spec, dict) else len(spec)


BIG = [1000, 1001, 1024, 1500, 2000, 2050, 3001]
