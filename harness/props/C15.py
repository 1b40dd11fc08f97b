"""Projection pursuit finds directions that are optimal for the chosen index."""
import numpy as np

import core
import data
import zoo  # noqa: F401  (installs the stand-in solver)
from api import VersatileScaler, capi, dicomo, ppdire, snipls
import statsmodels.api as sm

RULE = (
    "seeded one- and two-block data; the index attained by each successive direction compared with the known optimum on the deflated data (covariance, correlation), with the spectral "
    "norm (variance, grid), with a brute-force scan of all angles (two columns, grid) and with random and neighbouring directions (other indices, judged on batches of data sets "
    "because the optimiser is local); extra constraints with known constrained optimum; non-trivial = a distinct fitted data set"
)
ASSUMPTIONS = [
    "SLSQP and IPOPT are local optimisers: global optimality is claimed for covariance and correlation only (while at least two dimensions are left), for other indices local optimality on most data sets",
    "the grid scans half of the circle: for two columns it is optimal for indices without sign or squared ones",
    "the IPOPT solver is replaced by a stand-in with the same interface (cyipopt is not installable offline)",
]
CLAUSES = ["covariance", "correlation", "variance_grid", "plane_grid", "squared_grid", "local", "start", "constraint_eq", "constraint_ineq", "pls", "ols", "pca", "nested", "capi_same", "reorder",
           "optimisers_agree", "rotation", "affine_data", "pcr", "ipopt_problem", "unscaled", "whitened", "monotone_h", "negative_index"]


def gen(rng, tier):
    reps = 70 if tier == "quick" else 1500
    K = ["gauss", "corr", "heavy", "scaled", "outliers"]
    for i in range(reps):
        for kind in ("cov", "cov", "corr", "vargrid", "plane", "plane", "con", "pls", "sq", "equi"):
            yield {"kind": kind, "data": str(rng.choice(K)), "n": int(rng.choice([15, 25, 40])), "p": int(rng.integers(2, 6)), "scale": bool(rng.random() < 0.75), "opt": ["SLSQP", "IPOPT"][i % 2]}
    for i in range(max(6, reps // 3)):
        yield {"kind": "local", "mode": ["kurt", "skew", "continuum", "dcov", "mdd", "var"][i % 6], "data": "gauss"}


def prep(X, y, scale, center="mean"):
    """centred and scaled with the package's own scaler (decided by C01/C02)"""
    f = lambda M: np.asarray(VersatileScaler(center=center, scale="std" if scale else "None").fit_transform(M.copy()), float)
    return f(X), f(y[:, None])[:, 0]


def deflate(E, w):
    t = E @ w
    return E - np.outer(t, E.T @ t / (t @ t)), t


def rank(E, Z):
    return int((np.linalg.svd(E, compute_uv=False) > 1e-6 * np.linalg.norm(Z, 2)).sum())


def pp(mode, h=1, opt="SLSQP", opts=None, scale=True, est="arithmetic", **k):
    opts = opts or ({"maxiter": 500} if opt != "grid" else {"ndir": 180, "maxiter": 60})
    return ppdire(projection_index=dicomo, pi_arguments={"est": est, "mode": mode, "center": "mean"}, n_components=h, optimizer=opt, optimizer_options=opts, scale_data=scale, verbose=False, **k)


def run(case, mon):
    rng = data.rng_of(case)
    if case["kind"] == "local":
        return core.confirmed(mon, lambda j, sub: local(case, sub, np.random.default_rng([case["seed"], 7, j])))
    n, p = case["n"], case["p"]
    X = data.matrix(rng, n, p, case["data"])
    if not case["scale"] and case["data"] == "scaled":
        X = data.matrix(rng, n, p, "corr")
    y = data.response(rng, X, "linear", 0.4)
    state = rng.bit_generator.state

    def attempt(j, sub):
        r = np.random.default_rng()
        r.bit_generator.state = state
        q = np.random.default_rng([case["seed"], j])
        pr, pc = (q.permutation(n), q.permutation(p)) if j else (np.arange(n), np.arange(p))
        globals()["k_" + case["kind"]](case, sub, r, X[pr][:, pc], y[pr], n, p, case["scale"], case["opt"])

    core.confirmed(mon, attempt)
    mon.seen(case["kind"], X)


def along(mon, clause, o, Z, s, f, lab, tol, extra=()):
    """index at each direction relative to the optimum of the deflated data"""
    W = np.asarray(o.x_weights_, float)
    E = Z.copy()
    for i in range(W.shape[1]):
        if rank(E, Z) < 2:
            mon.event("one_dimension_left")
            return
        w = W[:, i] / np.linalg.norm(W[:, i])
        got, best = f(E, w)
        first = best if i == 0 else first
        if best < 0.1 * first:
            mon.event("little_left")  # below the stopping tolerance of the optimiser
            return
        if clause == "covariance" and E[0] @ (E.T @ s) < -0.97 * np.linalg.norm(E[0]) * np.linalg.norm(E.T @ s):
            mon.event("started_at_the_minimum")  # the optimiser starts at the first case, here the antipode of the optimum
            return
        for c in (clause,) + extra:
            mon.ok(c, got >= best * (1 - tol), "%s: component %d attains %.6g of the best %.6g" % (lab, i, got, best))
        E, _ = deflate(E, w)


def fcov(s):
    return lambda E, w: (float(E @ w @ s), float(np.linalg.norm(E.T @ s)))


def k_cov(case, mon, rng, X, y, n, p, scale, opt):
    h = int(rng.integers(1, min(p, 3) + 1))
    Z, s = prep(X, y, scale)
    o = mon.call("covariance", "fit", pp("cov", h, opt, scale=scale).fit, X.copy(), y.copy())
    lab = "cov %s scale=%s p=%d" % (opt, scale, p)
    along(mon, "covariance", o, Z, s, fcov(s), lab, 2e-3, () if scale else ("unscaled",))
    o1 = pp("cov", 1, opt, scale=scale).fit(X.copy(), y.copy())
    mon.close("nested", np.asarray(o.x_weights_)[:, :1], np.asarray(o1.x_weights_), rtol=1e-9, msg=lab + ": the first direction depends on the number of components")
    # the co-moment index with all weight on the covariance is the covariance
    oc = ppdire(projection_index=capi, pi_arguments=dict(max_degree=2, projection_index=dicomo, pi_arguments={"est": "arithmetic", "mode": "cov", "center": "mean"}, weights=[1, 0, 0, 0, 0, 0], scaling=False),
                n_components=1, optimizer=opt, optimizer_options={"maxiter": 500}, scale_data=scale, verbose=False)
    oc.fit(X.copy(), y.copy())
    w0, w1 = np.asarray(oc.x_weights_)[:, 0], np.asarray(o.x_weights_)[:, 0]
    g = np.linalg.norm(Z.T @ s)
    mon.ok("capi_same", abs(Z @ w0 @ s - g) < 2e-2 * g and abs(Z @ w1 @ s - g) < 2e-3 * g, "%s: co-moment index direction attains %.4g of %.4g" % (lab, Z @ w0 @ s, g))
    if scale and np.linalg.cond(Z) < 1e3:
        ow = ppdire(projection_index=dicomo, pi_arguments={"mode": "cov"}, n_components=1, optimizer=opt, optimizer_options={"maxiter": 500}, whiten_data=True, verbose=False)
        ow.fit(X.copy(), y.copy())
        t = np.asarray(ow.x_scores_, float)[:, 0]
        f = Z @ np.linalg.lstsq(Z, s, rcond=None)[0]
        c = abs(np.corrcoef(t, f)[0, 1])
        mon.ok("whitened", c > 0.98, "whitened covariance direction correlates %.5f with least squares" % c)


def k_corr(case, mon, rng, X, y, n, p, scale, opt):
    Z, s = prep(X, y, scale)
    o = mon.call("correlation", "fit", pp("corr", 1, opt, scale=scale).fit, X.copy(), y.copy())
    t = Z @ np.asarray(o.x_weights_)[:, 0]
    f = Z @ np.linalg.lstsq(Z, s, rcond=None)[0]
    best = np.corrcoef(f, s)[0, 1]
    got = np.corrcoef(t, s)[0, 1]
    lab = "corr %s scale=%s p=%d" % (opt, scale, p)
    if np.linalg.cond(Z) < 20:
        mon.ok("correlation", got >= best - 5e-3, "%s: correlation %.6f, best %.6f" % (lab, got, best))
        mon.close("ols", np.asarray(o.fitted_).reshape(-1), sm.OLS(y, sm.add_constant(X)).fit().fittedvalues, rtol=0.12, scale=y.std() * n ** 0.5, msg=lab)


def k_vargrid(case, mon, rng, X, y, n, p, scale, opt):
    h = int(rng.integers(1, min(p, 3) + 1))
    Z, s = prep(X, y, scale)
    o = mon.call("variance_grid", "fit", pp("var", h, "grid", scale=scale).fit, X.copy())
    lab = "var grid scale=%s p=%d" % (scale, p)
    fv = lambda E, w: (float(((E @ w) ** 2).sum()), float(np.linalg.norm(E, 2) ** 2))
    along(mon, "variance_grid", o, Z, s, fv, lab, 1.5e-2)
    ev = np.asarray(o.x_ev_, float).reshape(-1)
    w = np.linalg.svd(Z, compute_uv=False) ** 2
    mon.ok("pca", np.abs(np.cumsum(ev) - 100 * np.cumsum(w)[:h] / w.sum()).max() < 2.0, "%s: explained variance %s, principal components %s" % (lab, ev, 100 * w[:h] / w.sum()))
    # an index that is negative everywhere: the direction of least variance
    o4 = ppdire(projection_index=NegVar, pi_arguments={}, n_components=1, optimizer="grid", optimizer_options={"ndir": 180, "maxiter": 100}, scale_data=scale, verbose=False)
    mon.call("negative_index", "fit", o4.fit, X.copy())
    u = np.asarray(o4.x_weights_, float)[:, 0]
    S = np.linalg.svd(Z, compute_uv=False) ** 2
    got = float(((Z @ u) ** 2).sum() / (u @ u))
    mon.ok("negative_index", S[0] - got >= 0.97 * (S[0] - S[-1]), "%s: minus the variance attains %.6g, best %.6g, worst %.6g" % (lab, -got, -S[-1], -S[0]))
    # principal component regression
    o2 = pp("var", h, "grid", scale=scale)
    o3 = ppdire(projection_index=dicomo, pi_arguments={"mode": "var"}, n_components=p, optimizer="grid", optimizer_options={"ndir": 60, "maxiter": 10}, scale_data=True, verbose=False)
    if np.linalg.cond(prep(X, y, True)[0]) < 30:
        o3.fit(X.copy(), y.copy())
        f = sm.OLS(y, sm.add_constant(X)).fit().fittedvalues
        mon.close("pcr", np.asarray(o3.fitted_).reshape(-1), f, rtol=1e-5, scale=np.abs(y).max() + np.abs(f).max(), msg="all components reproduce least squares")
        r = [((y - X @ np.asarray(o3.coef_)[:, j] - (y - X @ np.asarray(o3.coef_)[:, j]).mean()) ** 2).sum() for j in range(p)]
        mon.ok("monotone_h", all(r[j + 1] <= r[j] * (1 + 1e-9) + 1e-12 for j in range(p - 1)), "residual sum of squares grows with components: %s" % r)


def k_sq(case, mon, rng, X, y, n, p, scale, opt):
    Z, s = prep(X, y, scale)
    o = mon.call("squared_grid", "fit", pp("cov", 1, "grid", scale=scale, square_pi=True).fit, X.copy(), y.copy())
    w = np.asarray(o.x_weights_)[:, 0]
    g = np.linalg.norm(Z.T @ s)
    mon.ok("squared_grid", abs(Z @ w @ s) >= 0.985 * g, "squared covariance grid p=%d scale=%s: |cov| %.5g of %.5g" % (p, scale, abs(Z @ w @ s), g))
    a = pp("cov", 1, "SLSQP", scale=scale).fit(X.copy(), y.copy())
    b = pp("cov", 1, "IPOPT", scale=scale).fit(X.copy(), y.copy())
    wa, wb = np.asarray(a.x_weights_)[:, 0], np.asarray(b.x_weights_)[:, 0]
    mon.ok("optimisers_agree", min(Z @ wa @ s, Z @ wb @ s, abs(Z @ w @ s)) > 0.98 * max(Z @ wa @ s, Z @ wb @ s, abs(Z @ w @ s)), "optimisers attain %.5g %.5g %.5g" % (Z @ wa @ s, Z @ wb @ s, abs(Z @ w @ s)))


def k_plane(case, mon, rng, X, y, n, p, scale, opt):
    """two columns: brute force over all angles"""
    X = X[:, :2]
    Z, s = prep(X, y, scale)
    if np.linalg.cond(Z) > 1e6:
        return
    mode, est, sq, two = [("var", "arithmetic", False, False), ("cov", "distance", False, True), ("mdd", "distance", False, True), ("cov", "arithmetic", True, True), ("corr", "arithmetic", True, True),
                          ("skew", "arithmetic", True, False), ("kurt", "arithmetic", False, False), ("cok", "arithmetic", True, True), ("var", "distance", False, False), ("continuum", "arithmetic", True, True)][int(rng.integers(10))]
    nd = int(rng.choice([30, 61, 100]))
    a = (y.copy(),) if two else ()
    o = mon.call("plane_grid", "fit", ppdire(projection_index=dicomo, pi_arguments={"est": est, "mode": mode, "center": "mean"}, n_components=1, optimizer="grid", optimizer_options={"ndir": nd, "maxiter": 5},
                                             square_pi=sq, scale_data=scale, verbose=False).fit, X.copy(), *a)
    idx = dicomo(est=est, mode=mode, center="mean")
    kw = dict(alpha=1, trimming=0, biascorr=False, dmetric="euclidean", **({"y": s[:, None]} if two else {}))

    def f(a_):
        v = float(np.ravel(idx.fit((Z @ np.array([np.cos(a_), np.sin(a_)])).reshape(-1, 1), **kw))[0])
        return v * v if sq else v

    th = np.linspace(0, np.pi, 3 * nd, endpoint=False)
    v = np.array([f(t) for t in th])
    k = int(np.nanargmax(v))
    step = np.pi / nd
    near = [f(th[k] + d) for d in np.linspace(-step, step, 9)]
    w = np.asarray(o.x_weights_)[:, 0]
    got = f(np.arctan2(w[1], w[0]))
    lab = "%s %s squared=%s ndir=%d" % (est, mode, sq, nd)
    mon.ok("plane_grid", got >= min(near) - 1e-9 * abs(v[k]), "%s: index %.6g at the chosen angle, %.6g at the best angle (within one grid step at least %.6g)" % (lab, got, v[k], min(near)))
    mon.close("plane_grid", [float(np.ravel(o.Maxobjf_)[0])], [got], rtol=1e-7, msg=lab + ": reported objective")


class NegVar:
    def __init__(self):
        pass

    def fit(self, x, **kw):
        return -float(np.var(np.asarray(x)))


class Con:
    def __init__(self, v):
        self.v = v

    def __call__(self, x):
        return float(np.asarray(x).reshape(-1) @ self.v)


def k_con(case, mon, rng, X, y, n, p, scale, opt):
    if p < 3:
        X = data.matrix(rng, n, 3, "corr")
        p = 3
        y = data.response(rng, X, "linear", 0.4)
    Z, s = prep(X, y, scale)
    g = Z.T @ s
    v = data.unit(rng.standard_normal(p)) if rng.random() < 0.5 else np.eye(p)[int(rng.integers(p))]
    kind = str(rng.choice(["eq", "ineq"]))
    if kind == "ineq" and rng.random() < 0.7:
        v = -np.sign(g @ v) * v if g @ v else v  # binding
    best = g - v * (v @ g) if (kind == "eq" or v @ g < 0) else g
    if np.linalg.norm(best) < 0.05 * np.linalg.norm(g):
        return
    o = mon.call("constraint_" + kind, "fit", pp("cov", 1, opt, scale=scale, optimizer_constraints={"type": kind, "fun": Con(v)}).fit, X.copy(), y.copy())
    w = np.asarray(o.x_weights_)[:, 0]
    lab = "%s %s constraint" % (opt, kind)
    r = float(w @ v)
    mon.ok("constraint_" + kind, abs(r) < 1e-3 if kind == "eq" else r > -1e-3, "%s is violated: %.4g" % (lab, r))
    mon.ok("constraint_" + kind, Z @ w @ s >= 0.99 * np.linalg.norm(best) - 2e-3 * np.linalg.norm(g), "%s: covariance %.5g, constrained optimum %.5g" % (lab, Z @ w @ s, np.linalg.norm(best)))
    if opt == "IPOPT":
        import ipoptstub

        L = ipoptstub.Problem.log
        mon.ok("ipopt_problem", L and L[-1].m == 2 and L[-1].n == p, "%s: the solver was given %s constraints" % (lab, L[-1].m if L else None))


def k_pls(case, mon, rng, X, y, n, p, scale, opt):
    """covariance with least squares is partial least squares"""
    if case["data"] in ("heavy", "outliers"):
        X = data.matrix(rng, n, p, "corr")
        y = data.response(rng, X, "linear", 0.4)
    h = int(rng.integers(1, min(p, 3) + 1))
    Z, s = prep(X, y, scale)
    if np.linalg.cond(Z) > 30:
        return
    o = mon.call("pls", "fit", pp("cov", h, "SLSQP", scale=scale, opts={"maxiter": 2000, "ftol": 1e-14}).fit, X.copy(), y.copy())
    r = snipls(eta=0.0, n_components=h, centre="mean", scale="std" if scale else "None", verbose=False).fit(X.copy(), y.copy())
    mon.close("pls", np.asarray(o.fitted_).reshape(-1), np.asarray(r.fitted_).reshape(-1), rtol=0.02, scale=y.std() * 2, msg="ppdire covariance and PLS, %d of %d components" % (h, p))


def k_equi(case, mon, rng, X, y, n, p, scale, opt):
    Z, s = prep(X, y, scale)
    if np.linalg.cond(Z) > 100:
        return
    o = pp("cov", 1, opt, scale=scale).fit(X.copy(), y.copy())
    f0 = np.asarray(o.fitted_).reshape(-1)
    sc = y.std() * 3
    pr = rng.permutation(n)
    f1 = np.asarray(pp("cov", 1, opt, scale=scale).fit(X[pr], y[pr]).fitted_).reshape(-1)
    mon.close("reorder", f1, f0[pr], rtol=0.06, scale=sc, msg="reordered cases")
    if scale:
        a = 10.0 ** rng.uniform(-2, 2, p)
        f1 = np.asarray(pp("cov", 1, opt).fit(X * a + rng.uniform(-5, 5, p) * a, y * 3 - 2).fitted_).reshape(-1)
        mon.close("affine_data", (f1 + 2) / 3, f0, rtol=0.06, scale=sc, msg="rescaled columns")
    else:
        Q = np.linalg.qr(rng.standard_normal((p, p)))[0]
        f1 = np.asarray(pp("cov", 1, opt, scale=False).fit(X @ Q, y.copy()).fitted_).reshape(-1)
        mon.close("rotation", f1, f0, rtol=0.06, scale=sc, msg="rotated columns")


def local(case, mon, rng):
    """local optimisers: judged on a batch of data sets"""
    mode, est = {"dcov": ("cov", "distance"), "mdd": ("mdd", "distance")}.get(case["mode"], (case["mode"], "arithmetic"))
    two = mode in ("cov", "mdd", "continuum")
    better, opt = 0, 0
    N = 10
    for _ in range(N):
        p, n = int(rng.integers(2, 5)), 25
        X = data.matrix(rng, n, p, "corr")
        y = data.response(rng, X, "linear", 0.4)
        Z, s = prep(X, y, True)
        a = (y.copy(),) if two else ()
        o = mon.call("local", "fit", pp(mode, 1, "SLSQP", est=est).fit, X.copy(), *a)
        idx = dicomo(est=est, mode=mode, center="mean")
        kw = dict(alpha=1, trimming=0, biascorr=False, dmetric="euclidean", **({"y": s[:, None]} if two else {}))
        f = lambda w: float(np.ravel(idx.fit((Z @ w).reshape(-1, 1), **kw))[0])
        w = np.asarray(o.x_weights_)[:, 0]
        v = f(w)
        better += v >= f(data.unit(Z[0])) - 1e-6 * abs(v)
        opt += all(v >= f(data.unit(w + 0.05 * d / np.linalg.norm(d))) - 2e-3 * abs(v) for d in rng.standard_normal((12, p)))
        mon.seen("local", X, mode)
    mon.ok("start", better >= N - 3, "%s: the direction beats its starting point on %d of %d data sets" % (case["mode"], better, N))
    mon.ok("local", opt >= N - 3, "%s: the direction is locally optimal on %d of %d data sets" % (case["mode"], opt, N))
