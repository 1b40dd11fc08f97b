"""Seeded workload data: ordinary, hostile and degenerate shapes."""
import numpy as np
import pandas as pd

KINDS = ["gauss", "corr", "heavy", "ties", "outliers", "scaled", "lattice"]


def rng_of(case, *extra):
    return np.random.default_rng([int(case["seed"])] + [int(e) for e in extra])


def matrix(rng, n, p, kind="gauss"):
    """n x p matrix of a named distribution, full column rank with probability 1
    unless the kind says otherwise."""
    if kind == "gauss":
        return rng.standard_normal((n, p))
    if kind == "corr":
        L = rng.standard_normal((p, p)) + 1.5 * np.eye(p)
        return rng.standard_normal((n, p)) @ L + rng.uniform(-5, 5, p)
    if kind == "heavy":
        return rng.standard_t(2, (n, p)) + rng.uniform(-3, 3, p)
    if kind == "ties":
        return np.round(rng.standard_normal((n, p)) * 2) / 2
    if kind == "lattice":
        return rng.integers(-4, 5, (n, p)).astype(float)
    if kind == "outliers":
        X = rng.standard_normal((n, p)) + rng.uniform(-2, 2, p)
        k = max(1, n // 8)
        i = rng.choice(n, k, replace=False)
        X[i] += rng.uniform(8, 40, (k, p)) * rng.choice([-1, 1], (k, p))
        return X
    if kind == "scaled":
        return rng.standard_normal((n, p)) * 10.0 ** rng.uniform(-3, 3, p) + 10.0 ** rng.uniform(0, 2, p)
    if kind == "skew":
        return rng.lognormal(0, 0.8, (n, p))
    raise ValueError(kind)


def response(rng, X, kind="linear", noise=0.2):
    n, p = X.shape
    Z = (X - X.mean(0)) / np.where(X.std(0) == 0, 1, X.std(0))
    b = rng.standard_normal(p) * (rng.random(p) < 0.8)
    if not b.any():
        b[0] = 1.0
    t = Z @ b
    if kind == "linear":
        y = t
    elif kind == "square":
        y = t ** 2
    elif kind == "exp":
        y = np.exp(t / (1 + np.abs(t).max() / 3))
    elif kind == "noise":
        y = np.zeros(n)
    else:
        raise ValueError(kind)
    return y + noise * (np.std(y) + 0.1) * rng.standard_normal(n) + rng.uniform(-3, 3)


CONTAINERS = ["c", "f", "view", "df", "float32ish", "readonly"]


def as_container(X, how):
    """The same numbers in another container."""
    if how == "c":
        return np.ascontiguousarray(X).copy()
    if how == "f":
        return np.asfortranarray(X).copy(order="F")
    if how == "view":
        big = np.full((X.shape[0] * 2,) + tuple(2 * s for s in X.shape[1:]), 7.0)
        if X.ndim == 2:
            big[::2, ::2] = X
            return big[::2, ::2]
        big[::2] = X
        return big[::2]
    if how == "df":
        if X.ndim == 2:
            return pd.DataFrame(X.copy(), columns=["v%d" % i for i in range(X.shape[1])])
        return pd.Series(X.copy(), name="y")
    if how == "dfidx":
        idx = ["r%d" % i for i in range(X.shape[0])][::-1]
        if X.ndim == 2:
            return pd.DataFrame(X.copy(), columns=["v%d" % i for i in range(X.shape[1])], index=idx)
        return pd.Series(X.copy(), name="y", index=idx)
    if how == "dfint":
        if X.ndim == 2:
            return pd.DataFrame(X.copy(), index=np.arange(X.shape[0])[::-1] * 3)
        return pd.Series(X.copy(), index=np.arange(X.shape[0])[::-1] * 3)
    if how == "matrix":
        return np.matrix(X.copy())
    if how == "readonly":
        Y = X.copy()
        Y.setflags(write=False)
        return Y
    raise ValueError(how)


def unit(v):
    return v / np.linalg.norm(v)


def subspace_dist(A, B):
    """Largest principal angle sine between column spaces."""
    Qa, _ = np.linalg.qr(A)
    Qb, _ = np.linalg.qr(B)
    return np.linalg.norm(Qa @ Qa.T - Qb @ Qb.T, 2)
