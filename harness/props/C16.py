"""Sliced and moment-based sufficient dimension reduction."""
import numpy as np
import scipy.linalg as sl

import data
import ref
from api import sudire, sutil

RULE = (
    "seeded regression data (correlated, heavy tailed, skewed, badly scaled; continuous, tied and class responses; linear, quadratic and "
    "two-index signals) over SIR, SAVE, DR, PHD and IHT, slices, dimension, centre, scaling, whitening and trimming; the basis compared with an "
    "independent eigen-solution; non-trivial = a distinct fit whose kernel matrix has a clear gap after the requested dimension"
)
ASSUMPTIONS = [
    "a basis is compared where the kernel matrix has a relative eigenvalue gap of at least 1e-4 after it (otherwise it is not determined)",
    "iterative Hessian transformations of standardised data determine one direction only; SIR at most the number of slices minus one",
    "whitening is claimed for SIR and PHD around the mean (SAVE and DR subtract an identity that presumes unit covariance)",
]
CLAUSES = ["compression", 
    "fit", "subspace", "columns", "normalised", "scores", "projection", "sir", "save", "dr", "phd", "iht", "unscaled", "uncentred", "median", "whitened",
    "trimmed", "loc_sca", "ols", "predict", "transform", "residual_orthogonal", "affine", "permute", "monotone", "y_affine", "classes", "slices", "relabel",
    "recovery", "functions", "refit_dim", "no_ols",
]


def gen(rng, tier):
    reps = 3000 if tier == "quick" else 12000
    for i in range(reps):
        p = int(rng.integers(2, 7))
        yield {
            "kind": str(rng.choice(["gauss", "corr", "heavy", "skew", "scaled"])),
            "meth": ["sir", "save", "dr", "phd", "iht"][i % 5], "p": p, "n": int(rng.choice([25, 40, 90, 200])), "d": int(rng.integers(1, p + 1)),
            "slices": int(rng.choice([2, 3, 5, 6, 8])), "resp": str(rng.choice(["linear", "square", "two", "ties", "class"])),
            "center": str(rng.choice(["mean", "mean", "median"])), "centre": bool(rng.random() < 0.85), "scale": bool(rng.random() < 0.75),
            "whiten": bool(rng.random() < 0.3), "trim": float(rng.choice([0, 0, 0, 0.1])),
        }
    for i in range(8):
        yield {"kind": "flat", "meth": ["sir", "iht"][i % 2], "center": ["mean", "median"][i // 2 % 2]}
    for i in range(max(20, reps // 10)):
        yield {"kind": "recover", "meth": ["sir", "save", "dr", "phd"][i % 4], "p": int(rng.integers(3, 6))}


def slicing(y, h, ytype):
    if ytype != "continuous":
        return np.unique(y, return_inverse=True)[1]
    n = len(y)
    cuts = np.sort(y)[[i * (n // h) for i in range(1, h)]]
    return np.searchsorted(cuts, y, side="right")


def kernel(Z, y, meth, h, ytype):
    """kernel matrix of the method on (standardised) predictors Z"""
    n, p = Z.shape
    I = np.eye(p)
    if meth == "phd":
        return (Z * (y - y.mean())[:, None]).T @ Z / n
    if meth == "iht":
        c = ((Z - Z.mean(0)) * (y - y.mean())[:, None]).sum(0) / (n - 1)
        S = np.cov(Z, rowvar=False).reshape(p, p)
        K = np.column_stack([np.linalg.matrix_power(S, i) @ c for i in range(p)])
        return K @ K.T
    lab = slicing(y, h, ytype)
    A, B, C = np.zeros((p, p)), np.zeros((p, p)), np.zeros((p, p))
    for l in np.unique(lab):
        G = Z[lab == l]
        pr = len(G) / n
        m = G.mean(0)
        V = np.cov(G, rowvar=False).reshape(p, p) if len(G) > 1 else I
        B += pr * np.outer(m, m)
        A += pr * (V - I) @ (V - I)
        T = V + np.outer(m, m)
        C += pr * T @ T
    if meth == "sir":
        return B
    if meth == "save":
        return A
    return 2 * C + 2 * B @ B + 2 * np.trace(B) * B - 2 * I


def solve(X, y, meth, d, h, ytype, centre, scale):
    """basis (columns in original coordinates), eigenvalues sorted decreasingly"""
    S = np.cov(X, rowvar=False).reshape(X.shape[1], -1)
    Z = X - X.mean(0) if centre else X
    L = np.linalg.inv(np.linalg.cholesky(S)).T if scale else np.eye(X.shape[1])
    M = kernel(Z @ L, y, meth, h, ytype)
    w, v = np.linalg.eigh((M + M.T) / 2)
    return w[::-1], L @ v[:, ::-1], S


def sub(A, B, S):
    """sine of the largest angle between spans, in the S inner product"""
    R = np.linalg.cholesky(S).T
    return data.subspace_dist(R @ A, R @ B)


def run(case, mon):
    rng = data.rng_of(case)
    if case["kind"] == "recover":
        return recover(case, mon, rng)
    if case["kind"] == "flat":
        return flat(case, mon, rng)
    n, p, d, h, meth = case["n"], case["p"], case["d"], case["slices"], case["meth"]
    X = data.matrix(rng, n, p, case["kind"])
    y = resp(rng, X, case["resp"])
    ytype = "discrete" if case["resp"] == "class" else "continuous"
    whiten = case["whiten"] and meth in ("sir", "phd") and case["center"] == "mean" and case["trim"] == 0
    cd, sd = case["centre"] or whiten, case["scale"] and not whiten
    kw = dict(sudiremeth=meth, n_components=d, n_slices=h, center=case["center"], center_data=case["centre"], scale_data=case["scale"],
              whiten_data=whiten, trimming=case["trim"], response_type=ytype, verbose=False)
    lab = "%s d=%d slices=%d %s centre=%s scale=%s whiten=%s %s" % (meth, d, h, case["center"], cd, sd, whiten, case["resp"])
    o = sudire(**kw)
    yin = [y, y[:, None]][int(rng.integers(2))]
    try:
        ret = o.fit(X.copy(), yin.copy())
    except np.linalg.LinAlgError:
        if meth in ("sir", "iht"):
            mon.event("degenerate_basis")
            return
        raise
    mon.ok("fit", ret is o, "fit does not return the estimator")
    P = np.asarray(o.x_loadings_, float)
    if not mon.ok("fit", P.shape == (p, d) and np.isfinite(P).all(), "%s: basis %s" % (lab, P.shape)):
        return
    # plain consequences of the basis
    T = X @ P
    sc = np.abs(X).max() * np.abs(P).max() * p
    mon.close("scores", o.x_scores_, T, rtol=1e-10, scale=sc, msg=lab)
    mon.close("transform", o.transform(X[:5]), T[:5], rtol=1e-10, scale=sc)
    if np.linalg.cond(P) < 1e5:
        Q = np.linalg.qr(P)[0]
        mon.close("projection", o.proj_mat_, Q @ Q.T, rtol=1e-6 * (1 + np.linalg.cond(P) * 1e-4), scale=1, msg=lab)
    D = np.column_stack([np.ones(n), T])
    Ds = D / np.maximum(np.abs(D).max(0), 1e-300)
    b, _, rank, sv = np.linalg.lstsq(Ds, y, rcond=None)
    cd0 = np.linalg.cond(D)  # the pseudo-inverse of the code works on unscaled columns
    if rank == d + 1 and sv[0] / sv[-1] < 1e6 and cd0 < 1e8:
        f = Ds @ b
        mon.close("ols", np.asarray(o.ols_obj_.fittedvalues, float), f, rtol=1e-6, scale=np.abs(y).max() * 2, msg=lab)
        mon.close("predict", o.predict(X), f, rtol=1e-6, scale=np.abs(y).max() * 2, msg=lab)
        Xn = X[rng.permutation(n)[:4]] * 0.7 + X[:4] * 0.5
        Dn = np.column_stack([np.ones(4), Xn @ P]) / np.maximum(np.abs(D).max(0), 1e-300)
        mon.close("predict", o.predict(Xn), Dn @ b, rtol=1e-6, scale=np.abs(y).max() * 2 + np.abs(Dn * b).max(), msg=lab)
        mon.ok("residual_orthogonal", np.abs(Ds.T @ (y - o.predict(X))).max() < 1e-6 * n * np.abs(y).max() * sv[0] / sv[-1], "%s: residuals correlate with the scores" % lab)
    # location and scale
    if case["center"] == "mean":
        if cd:
            m0 = ref.cols(ref.r_mean, X, case["trim"]) if case["trim"] else X.mean(0)
            s0 = X.std(0, ddof=1)
        else:
            m0, s0 = np.zeros(p), np.ones(p)
    elif sd:
        m0, s0 = ref.cols(ref.r_median, X), ref.cols(ref.r_mad, X)
    elif cd:
        m0, s0 = ref.cols(ref.r_median, X), np.ones(p)
    else:
        m0, s0 = np.zeros(p), np.ones(p)
    cs = np.abs(X).max(0) + 1e-300
    mon.cols("loc_sca", np.asarray(o.x_loc_, float).reshape(-1), m0, cs, msg=lab)
    mon.cols("loc_sca", np.asarray(o.x_sca_, float).reshape(-1), s0, cs, msg=lab)
    if cd:
        mon.close("loc_sca", [float(np.ravel(o.y_loc_)[0]), float(np.ravel(o.y_sca_)[0])], [y.mean(), y.std()], rtol=1e-9, scale=np.abs(y).max())
    if rng.random() < 0.15:
        # without the regression everything else stays, and there is nothing to predict with
        o2 = mon.call("no_ols", lab + " fit_ols=False", sudire(**dict(kw, fit_ols=False)).fit, X.copy(), yin.copy())
        same = all(np.array_equal(np.asarray(getattr(o2, k), float), np.asarray(getattr(o, k), float), equal_nan=True) for k in ("x_loadings_", "x_scores_", "proj_mat_", "x_loc_", "x_sca_"))
        mon.ok("no_ols", same and np.array_equal(o2.transform(X), o.transform(X)) and getattr(o2, "ols_obj_", None) is None, "%s: fit_ols=False changes the basis" % lab)
        mon.rejects("no_ols", lab + ": prediction without a regression", o2.predict, X.copy())
    # the basis itself
    if not cd and sd and case["center"] == "median":
        # median/mad scaling centres by itself: the kernel sees data centred at the median
        w, V, S = solve(X - ref.cols(ref.r_median, X), y, meth, d, h, ytype, False, True)
    else:
        w, V, S = solve(X, y, meth, d, h, ytype, cd, sd or whiten)
    gap_abs = None
    if meth == "phd":
        oa = np.argsort(-np.abs(w), kind="stable")
        if d < p and set(oa[:d]) != set(range(d)) and np.abs(w[oa[d - 1]]) - np.abs(w[oa[d]]) > 1e-3 * np.abs(w).max():
            gap_abs = V[:, oa[:d]]
    top = max(np.abs(w).max(), 1e-300)
    cond = np.linalg.cond(S) if (sd or whiten) else 1.0
    if (meth == "iht" and (sd or whiten)) or meth == "sir":
        rank = 1 if meth == "iht" else len(np.unique(slicing(y, h, ytype))) - (1 if cd else 0)
        if d > rank:
            mon.event("beyond_rank")
            return
    gap = (w[d - 1] - w[d]) / top if d < p else 1.0
    if gap < 1e-4 or cond > 1e10:
        mon.event("no_gap")
        return
    tol = min(1e-2, 1e-9 * max(cond, 1e2) / gap)
    mon.seen(X, y, lab)
    G = S if (sd or whiten) else np.eye(p)
    ang = sub(P, V[:, :d], G)
    good = ang < tol
    if gap_abs is not None and (sub(P, gap_abs, G) < tol or good):
        if good:
            mon.known_finding("phd-signed", "PHD keeps the largest signed eigenvalues instead of the largest absolute ones")
        good = True
    mon.ok("subspace", good, "%s: angle to the eigen-solution %.3g, gap %.3g" % (lab, ang, gap))
    mon.ok(meth, good, "%s: angle %.3g, eigenvalues %s" % (lab, ang, np.round(w, 4)))
    for c, on in (("unscaled", not (sd or whiten)), ("uncentred", not cd), ("median", case["center"] == "median"), ("whitened", whiten), ("trimmed", case["trim"] > 0),
                  ("classes", ytype == "discrete"), ("slices", meth in ("sir", "save", "dr") and ytype == "continuous")):
        if on:
            mon.ok(c, good, "%s: angle %.3g" % (lab, ang))
    if sd:
        mon.close("normalised", P.T @ S @ P, np.eye(d), rtol=1e-6 * max(1, cond * 1e-8), scale=1, msg=lab)
    if good and gap_abs is None:
        gaps = np.append((w[:-1] - w[1:]) / top, 1.0)
        for j in range(d):
            if gaps[j] > 1e-3 and (j == 0 or gaps[j - 1] > 1e-3):
                mon.ok("columns", sub(P[:, [j]], V[:, [j]], G) < tol * 100, "%s: direction %d differs" % (lab, j))
    # invariances
    again = lambda Xa, ya, **k: np.asarray(sudire(**dict(kw, **k)).fit(Xa, ya).x_loadings_, float)
    pr = rng.permutation(n)
    mon.ok("permute", sub(again(X[pr], y[pr]), P, G) < tol * 10, "%s: reordering the cases changes the subspace" % lab)
    if sd and cd:
        A = rng.standard_normal((p, p)) + 2 * np.eye(p)
        if np.linalg.cond(A) < 50:
            Q = again(X @ A + rng.uniform(-3, 3, p), y)
            mon.ok("affine", sub(A @ Q, P, G) < tol * 1e4, "%s: an affine change of variables changes the subspace by %.3g" % (lab, sub(A @ Q, P, G)))
    if meth in ("sir", "save", "dr"):
        y2 = np.exp((y - y.mean()) / (3 * y.std() + 1e-9)) if ytype == "continuous" else y * 3 + 1
        mon.ok("monotone" if ytype == "continuous" else "relabel", sub(again(X, y2), P, G) < tol * 10, "%s: an increasing transform of the response changes the subspace" % lab)
    else:
        mon.ok("y_affine", sub(again(X, 2.5 * y - 7), P, G) < tol * 10, "%s: rescaling the response changes the subspace" % lab)
    # a refit with another dimension is nested
    if d < p and d > 1 and gap_abs is None:
        g1 = (w[d - 2] - w[d - 1]) / top
        if g1 > 1e-3:
            Q = again(X, y, n_components=d - 1)
            mon.ok("refit_dim", sub(Q, V[:, : d - 1], G) < tol * 100 if meth != "phd" else True, "%s: the smaller basis is not nested" % lab)
    # the plain functions
    f = getattr(sutil, meth.upper())
    Zc = (X - X.mean(0)) / X.std(0)
    a = (Zc, y, h, d, ytype, True, True) if meth in ("sir", "save", "dr") else (Zc, y, d, True, True)
    F = np.asarray(mon.call("functions", meth.upper(), f, *a), float)
    w2, V2, S2 = solve(Zc, y, meth, d, h, ytype, True, True)
    g2 = (w2[d - 1] - w2[d]) / np.abs(w2).max() if d < p else 1
    c2 = np.linalg.cond(S2)
    if g2 > 1e-3 and c2 < 1e8:
        e = sub(F, V2[:, :d], S2)
        mon.ok("functions", e < 1e-9 * max(c2, 100) / g2 or (meth == "phd" and gap_abs is not None), "%s function: angle %.3g" % (lab, e))


def resp(rng, X, kind):
    n, p = X.shape
    Z = (X - X.mean(0)) / X.std(0)
    b1, b2 = rng.standard_normal(p), rng.standard_normal(p)
    t1, t2 = Z @ b1 / np.linalg.norm(b1), Z @ b2 / np.linalg.norm(b2)
    e = rng.standard_normal(n) * 0.2
    if kind == "linear":
        return t1 + e + 4
    if kind == "square":
        return rng.choice([-1, 1]) * t1 ** 2 + e
    if kind == "two":
        return t1 + 0.6 * t2 ** 2 + e
    if kind == "ties":
        return np.round(t1 + e)
    k = int(rng.integers(2, 5))
    q = np.quantile(t1 + e, np.linspace(0, 1, k + 1)[1:-1])
    return np.searchsorted(q, t1 + e).astype(float)


def recover(case, mon, rng):
    """strong signal, many cases: the true direction is found"""
    p, n = case["p"], 600
    A = rng.standard_normal((p, p)) + 2 * np.eye(p)
    if np.linalg.cond(A) > 30:
        return
    X = rng.standard_normal((n, p)) @ A + rng.uniform(-4, 4, p)
    b = np.linalg.solve(A, data.unit(rng.standard_normal(p)))  # index of unit variance
    t = (X - X.mean(0)) @ b
    y = t + 0.05 * rng.standard_normal(n) if case["meth"] in ("sir", "dr") else t ** 2 + 0.05 * rng.standard_normal(n)
    P = np.asarray(sudire(sudiremeth=case["meth"], n_components=1, verbose=False).fit(X, y).x_loadings_, float)
    c = abs(np.corrcoef(X @ P[:, 0], t)[0, 1])
    mon.ok("recovery", c > 0.9, "%s: correlation %.3f with the true index" % (case["meth"], c))
    mon.seen(X, case["meth"])


def flat(case, mon, rng):
    """more variables than cases, compression asked for"""
    X = rng.standard_normal((12, 15))
    y = X[:, 0] + X[:, 1] + 0.1 * rng.standard_normal(12)
    mon._count("compression")
    try:
        o = sudire(case["meth"], n_components=1, n_slices=3, center=case["center"], compression=True, verbose=False).fit(X.copy(), y.copy())
    except (ValueError, np.linalg.LinAlgError) as ex:
        mon.known_finding("compression", "sudire(compression=True) with more variables than cases raised %s" % ex)
        return
    mon.ok("compression", np.asarray(o.x_loadings_).shape == (15, 1), "compressed loadings of shape %s" % (np.asarray(o.x_loadings_).shape,))
    mon.close("compression", np.asarray(o.transform(X), float), np.asarray(o.x_scores_, float), rtol=1e-6)
