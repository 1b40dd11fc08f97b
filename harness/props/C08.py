"""Sparse NIPALS partial least squares."""
import numpy as np
import pandas as pd

import data
import refpls
from api import snipls

RULE = (
    "seeded regression data (tall, square and wide, correlated, tied, badly scaled, with and without missing cells) over sparsity, number "
    "of components, centring, scaling and column-name options; every stored result compared with an independent sparse NIPALS; "
    "non-trivial = a distinct fitted model with at least one non-zero coefficient"
)
ASSUMPTIONS = [
    "inputs on which the variable selection is decided by a tie (margin below 1e-9) or on which the component system is numerically singular are skipped",
]
CLAUSES = [
    "fit", "weights", "loadings", "scores", "inner", "rotation", "coef_scaled", "coef", "intercept", "fitted", "residuals", "x_ev", "y_ev",
    "loc_sca", "selected", "names", "sparse_zero", "normal_equations", "orthogonal_scores", "full_rank_ols", "nested", "rss_monotone",
    "predict", "transform", "missing", "krylov", "explained_total", "permute_columns", "constant_response",
]


def gen(rng, tier):
    reps = 5000 if tier == "quick" else 14000
    for i in range(reps):
        wide = rng.random() < 0.25
        p = int(rng.integers(1, 7)) if not wide else int(rng.integers(10, 30))
        n = int(rng.integers(5, 12)) if wide else int(p + rng.choice([3, 8, 20, 60]))
        yield {
            "kind": str(rng.choice(["gauss", "corr", "heavy", "ties", "outliers", "scaled", "skew"])),
            "n": n,
            "p": p,
            "h": int(rng.integers(1, min(n - 1, p, 5) + 1)),
            "eta": float(rng.choice([0, 0, 0.1, 0.3, 0.5, 0.8, 0.95])),
            "centre": str(rng.choice(["mean", "mean", "median", "l1median", "None"])),
            "scale": str(rng.choice(["None", "std", "mad"])),
            "missing": bool(rng.random() < 0.2),
            "resp": str(rng.choice(["linear", "square", "noise"])),
        }
    for i in range(40 if tier == "quick" else 400):
        yield {"kind": "constant", "n": int(rng.integers(6, 30)), "p": int(rng.integers(1, 6)), "eta": float(rng.choice([0, 0.3, 0.8])), "centre": str(rng.choice(["mean", "median"])), "scale": str(rng.choice(["None", "std", "mad"]))}


def constant(case, mon, rng):
    """nothing to explain: no variable gets a coefficient, every prediction is the response"""
    n, p = case["n"], case["p"]
    X = data.matrix(rng, n, p, "corr")
    v = float(rng.choice([0.0, 2.5, -1e4]))
    o = snipls(eta=case["eta"], n_components=int(rng.integers(1, min(n - 1, p) + 1)), centre=case["centre"], scale=case["scale"], verbose=False)
    mon.call("constant_response", "fit", o.fit, X.copy(), np.full(n, v))
    lab = "constant response %g %s" % (v, {k: case[k] for k in ("eta", "centre", "scale")})
    mon.ok("constant_response", (np.asarray(o.coef_, float) == 0).all() and np.asarray(o.coef_).size == p, "%s: coefficients %s" % (lab, np.ravel(o.coef_)))
    mon.close("constant_response", np.asarray(o.intercept_, float).reshape(-1), [v], rtol=1e-12, atol=1e-12, msg=lab)
    mon.close("constant_response", np.asarray(o.predict(X * 3 + 1), float).reshape(-1), np.full(n, v), rtol=1e-12, atol=1e-12, msg=lab)
    mon.close("constant_response", np.asarray(o.fitted_, float).reshape(-1), np.full(n, v), rtol=1e-12, atol=1e-12, msg=lab)
    T = np.asarray(o.transform(X[:4]), float)
    mon.ok("constant_response", T.shape[0] == 4 and (T == 0).all(), "%s: scores %s" % (lab, T))
    h = o.n_components
    for name, shape in (("x_weights_", (p, h)), ("x_loadings_", (p, h)), ("x_Rweights_", (p, h)), ("x_scores_", (n, h)), ("C_", (h, 1)), ("x_ev_", (h, 1)), ("y_ev_", (h, 1))):
        val = np.asarray(getattr(o, name), float)
        mon.ok("constant_response", val.shape == shape and (val == 0).all(), "%s: %s has shape %s (stated %s), largest entry %s; nothing is retained, so all of it is zero" % (lab, name, val.shape, shape, np.abs(val).max() if val.size else None))
    mon.ok("constant_response", T.shape == (4, h), "%s: %d components asked, transform gives %s" % (lab, h, T.shape))
    mon.seen(X, v)


def run(case, mon):
    rng = data.rng_of(case)
    if case["kind"] == "constant":
        return constant(case, mon, rng)
    n, p, h, eta = case["n"], case["p"], case["h"], case["eta"]
    centre, scale = case["centre"], case["scale"]
    X = data.matrix(rng, n, p, case["kind"])
    y = data.response(rng, X, case["resp"])
    miss = case["missing"] and n >= 8
    if miss:
        if centre == "l1median":
            centre = "median"
        if scale == "mad":
            scale = "std"
        only_y = rng.random() < 0.35
        if not only_y:
            X[rng.random(X.shape) < 0.06] = np.nan
        if only_y or rng.random() < 0.5:
            y[int(rng.integers(n))] = np.nan
    try:
        rf = refpls.snipls(X, y, eta, h, centre, scale)
    except np.linalg.LinAlgError:
        mon.event("skipped_singular")
        return
    m = rf["m"]
    if not np.isfinite(m.B).all() or m.cond > 1e9 or (eta > 0 and m.margin < 1e-9):
        mon.event("skipped_degenerate")
        return
    tol = max(1e-9, 1e-15 * m.cond * 100)
    names = ["v%d" % j for j in range(p)]
    how = int(rng.integers(5))
    cols, Xin = [(False, X), (list(names), X), (np.array(names), X), (True, pd.DataFrame(X, columns=names)), (pd.Index(names), X)][how]
    yin = [y, y[:, None], pd.Series(y), pd.DataFrame({"y": y})][int(rng.integers(4))]
    o = snipls(eta=eta, n_components=h, verbose=bool(rng.random() < 0.3), columns=cols, centre=centre, scale=scale)
    r = mon.call("fit", "snipls.fit", o.fit, Xin.copy(), yin.copy())
    mon.ok("fit", r is o, "fit does not return the estimator")
    lab = "eta %g h %d %s/%s" % (eta, h, centre, scale)
    if centre == "l1median":
        # an optimiser finds it, so its last digits depend on how sums are rounded: taken as reported when it is one (C01)
        mx = np.asarray(o.x_loc_, float).reshape(-1)
        mon.close("loc_sca", mx, rf["mx"], rtol=0, atol=2e-3 * np.abs(X - rf["mx"]).mean(), msg=lab)
        rf = refpls.snipls(X, y, eta, h, centre, scale, mx=mx)
        m = rf["m"]
        if not np.isfinite(m.B).all() or m.cond > 1e9 or (eta > 0 and m.margin < 1e-9):
            mon.event("skipped_degenerate")
            return
        tol = max(1e-9, 1e-15 * m.cond * 100)
    mon.seen(X, y, eta, h, centre, scale)
    mon.close("weights", o.x_weights_, m.W, rtol=tol, msg=lab)
    mon.close("loadings", o.x_loadings_, m.P, rtol=tol, msg=lab)
    mon.close("scores", o.x_scores_, m.T, rtol=tol, msg=lab)
    mon.close("inner", o.C_, m.C, rtol=tol * 10, scale=np.abs(m.C).max() + np.abs(m.C[0]), msg=lab)
    mon.close("rotation", o.x_Rweights_, m.R, rtol=tol, msg=lab)
    mon.close("coef_scaled", o.coef_scaled_, m.B, rtol=tol, msg=lab)
    mon.close("coef", o.coef_, rf["coef"], rtol=tol, msg=lab)
    ysc = np.nanmax(np.abs(y)) + np.nanmax(np.abs(rf["fitted"]))
    big = ysc + np.nanmax(np.abs(X * rf["coef"]))
    mon.close("intercept", o.intercept_, rf["intercept"], rtol=tol, scale=big, msg=lab)
    mon.close("fitted", o.fitted_, rf["fitted"], rtol=tol, scale=big, msg=lab)
    mon.close("residuals", o.residuals_, rf["resid"], rtol=tol, scale=big, msg=lab)
    mon.close("x_ev", o.x_ev_, m.xev, rtol=tol, scale=100, msg=lab)
    mon.close("y_ev", o.y_ev_, m.yev, rtol=tol, scale=100, msg=lab)
    for a, b in (("x_loc_", "mx"), ("x_sca_", "sx"), ("y_loc_", "my"), ("y_sca_", "sy")):
        mon.close("loc_sca", getattr(o, a), rf[b], rtol=1e-6 if centre == "l1median" else 1e-9, msg=a)
    act = np.where(m.active[-1])[0]
    if how == 0:
        mon.ok("selected", np.array_equal(np.asarray(o.colret_, float), act), "colret_ %s, expected %s" % (o.colret_, act))
    else:
        mon.ok("names", list(o.colret_) == [names[j] for j in act], "colret_ %s, expected columns %s" % (o.colret_, act))
    off = np.setdiff1d(np.arange(p), act)
    cf = np.asarray(o.coef_, float).reshape(-1)
    mon.ok("sparse_zero", (cf[off] == 0).all() and (np.asarray(o.x_weights_)[off] == 0).all(), "eliminated variables carry weight")
    if miss:
        mon.close("missing", o.coef_scaled_, m.B, rtol=tol)
        return
    Xn = data.matrix(rng, 4, p, "gauss") * np.abs(X).max()
    mon.close("predict", mon.call("predict", "predict", o.predict, Xn), Xn @ rf["coef"] + rf["intercept"], rtol=tol, scale=big + np.abs(Xn * rf["coef"]).max() * 2)
    mon.close("predict", np.asarray(o.predict(X)).reshape(-1), rf["fitted"], rtol=tol, scale=big)
    Tn = ((Xn - rf["mx"]) / refpls.one(rf["sx"])) @ m.R
    mon.close("transform", mon.call("transform", "transform", o.transform, Xn), Tn, rtol=max(tol, 1e-6 if centre == "l1median" else 0))
    Tt = np.asarray(o.transform(X), float)
    if not m.grew:
        mon.close("transform", Tt, o.x_scores_, rtol=max(tol, 1e-6 if centre == "l1median" else 0), msg="training scores " + lab)
    elif not np.allclose(Tt, o.x_scores_, rtol=1e-6, atol=1e-6 * np.abs(m.T).max()):
        mon.known_finding("sparse-scores", "transform(training data) differs from x_scores_")
    # geometry
    Xs = rf["Xs"]
    ysd = (y - rf["my"]) / refpls.one(np.atleast_1d(rf["sy"]))[0]
    res = ysd - Xs @ np.asarray(o.coef_scaled_, float).reshape(-1)
    g = np.asarray(o.x_weights_).T @ (Xs.T @ res)
    mon.ok("normal_equations", np.abs(g).max() <= tol * 10 * np.abs(Xs.T @ ysd).max(), "W'X'r = %s" % g)
    T = np.asarray(o.x_scores_, float)
    G = T.T @ T
    dg = np.sqrt(np.diag(G))
    off_ = G / np.outer(dg, dg) - np.eye(h)
    mon.ok("orthogonal_scores", np.abs(off_).max() <= max(1e-7, tol * 10), "score correlations %s" % off_)
    mon.ok("explained_total", np.asarray(o.y_ev_).sum() <= 100 * (1 + 1e-7) and (np.asarray(o.x_ev_) >= 0).all() and (np.asarray(o.x_ev_) <= 100 * (1 + 1e-7)).all(),
           "explained variances %s %s" % (o.x_ev_.ravel(), o.y_ev_.ravel()))
    if eta == 0:
        s0 = Xs.T @ ysd
        K = [s0 / np.linalg.norm(s0)]
        for _ in range(h - 1):
            v = Xs.T @ (Xs @ K[-1])
            for _twice in range(2):
                for q in K:
                    v = v - (q @ v) * q
            K.append(v / np.linalg.norm(v))
        K = np.array(K).T
        bk = K @ np.linalg.lstsq(Xs @ K, ysd, rcond=None)[0]
        if m.cond < 1e5:
            mon.close("krylov", o.coef_scaled_, bk, rtol=1e-5, msg=lab)
        if h == p and n > p and m.cond < 1e6:
            ols = np.linalg.lstsq(Xs, ysd, rcond=None)[0]
            mon.close("full_rank_ols", o.coef_scaled_, ols, rtol=1e-5, msg=lab)
    if h > 1:
        o1 = snipls(eta=eta, n_components=h - 1, verbose=False, centre=centre, scale=scale)
        mon.call("nested", "fit", o1.fit, X.copy(), y.copy())
        mon.close("nested", o1.x_weights_, np.asarray(o.x_weights_)[:, : h - 1], rtol=tol)
        mon.close("nested", o1.x_scores_, T[:, : h - 1], rtol=tol)
        r1 = ysd - Xs @ np.asarray(o1.coef_scaled_, float).reshape(-1)
        mon.ok("rss_monotone", (res @ res) <= (r1 @ r1) * (1 + 1e-8) + 1e-12 * (ysd @ ysd), "residual sum of squares grows with a component")
    pc = rng.permutation(p)
    if (eta == 0 or m.margin > 1e-6) and centre != "l1median" and m.cond < 1e7:
        op = snipls(eta=eta, n_components=h, verbose=False, centre=centre, scale=scale)
        mon.call("permute_columns", "fit", op.fit, X[:, pc].copy(), y.copy())
        mon.close("permute_columns", op.coef_, rf["coef"][pc], rtol=max(tol, 1e-8) * 10)
