"""Independent reference model: plain numpy, whole matrices, no batches, no I/O."""
import itertools
import numpy as np

EPS50 = {"double": 50 * np.finfo(np.float64).eps, "single": 50 * np.finfo(np.float32).eps}


def dtype_of(precision):
    return np.float32 if precision == "single" else np.float64


def activation(func, X, W, B):
    X = np.asarray(X, dtype=np.float64)
    W = np.asarray(W, dtype=np.float64)
    B = np.asarray(B, dtype=np.float64)
    if func == "lin":
        return X @ W + B
    if func == "sigm":
        return 1.0 / (1.0 + np.exp(X @ W + B))
    if func == "tanh":
        return np.tanh(X @ W + B)
    if isinstance(func, np.ufunc):
        return func(X @ W + B)
    D = X[:, :, None] - W[None, :, :]
    if func == "rbf_l1":
        d = np.abs(D).sum(1)
    elif func == "rbf_l2":
        d = np.sqrt((D ** 2).sum(1))
    elif func == "rbf_linf":
        d = np.abs(D).max(1)
    else:
        raise ValueError(func)
    return np.exp(-d ** 2 / B)


def merge_neurons(neurons):
    """[(func, W, B)] merged by type in order of first appearance, as the model stores them"""
    out = []
    for func, W, B in neurons:
        W, B = np.asarray(W, float), np.asarray(B, float)
        for i, (f, W0, B0) in enumerate(out):
            if f == func:
                out[i] = (f, np.hstack((W0, W)), np.hstack((B0, B)))
                break
        else:
            out.append((func, W, B))
    return out


def hidden(X, neurons):
    return np.hstack([activation(f, X, W, B) for f, W, B in merge_neurons(neurons)])


def class_weights(T):
    ns = np.asarray(T, float).sum(0)
    return ns.sum() / np.maximum(ns, 1)      # finite for a class without samples


def sample_weights(T, wc):
    return np.asarray(wc, float)[np.where(np.asarray(T) == 1)[1]]


def corr(X, T, neurons, wc=None):
    """contribution of rows (X,T) to HH, HT, without the regularisation term"""
    H = hidden(X, neurons)
    T = np.asarray(T, dtype=np.float64)
    if wc is not None:
        w = sample_weights(T, wc)[:, None]
        return H.T @ (H * w), H.T @ (T * w)
    return H.T @ H, H.T @ T


def ridge(HH, HT, norm):
    return np.linalg.solve(HH + norm * np.eye(HH.shape[0]), HT)


def close(a, b, rtol=1e-9, atol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    scale = max(1.0, float(np.max(np.abs(b))) if b.size else 1.0)
    return bool(np.all(np.isfinite(a))) and float(np.max(np.abs(a - b))) <= atol * scale + rtol * scale if b.size else True


def decode(M, base, contribs, exact=True, tol=1e-9):
    """all index tuples S (with multiplicity 0/1, also 2 tried last) such that
    M == base + sum(contribs[S])"""
    n = len(contribs)
    out = []
    scale = max(1.0, float(np.max(np.abs(M))) if M.size else 1.0)
    for mult in itertools.product((0, 1), repeat=n):
        S = base.copy()
        for m, c in zip(mult, contribs):
            if m:
                S = S + c
        d = float(np.max(np.abs(M - S))) if M.size else 0.0
        if (d == 0) if exact else (d <= tol * scale):
            out.append(tuple(i for i, m in enumerate(mult) if m))
    return out
