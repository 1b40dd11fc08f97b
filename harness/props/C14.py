"""Projection pursuit: everything reported follows from the fitted directions."""
import numpy as np
import pandas as pd
from scipy.stats import trim_mean
from statsmodels.regression.quantile_regression import QuantReg

import data
import refpls
from api import capi, dicomo, ppdire

RULE = (
    "seeded one- and two-block data over projection index (arithmetic, distance, co-moment index, user supplied), optimiser (SLSQP, grid), "
    "components, centring, scaling, trimming, whitening, regression option and call style; scores, loadings, rotations, explained "
    "variance, coefficients, criterion values, predictions recomputed from the reported directions; non-trivial = a distinct fitted model"
)
ASSUMPTIONS = ["optimality of the directions is C15; location/scale and index values are decided by C01, C05-C07; robust regression by C10",
               "index values are recomputed with a fresh index object"]
CLAUSES = ["null_projection", 
    "fit", "unit_directions", "scores", "loadings", "rotations", "x_ev", "orthogonal", "y_loadings", "coef_scaled", "coef", "intercept",
    "intercept_scaled", "fitted", "residuals", "predict", "transform", "crit_values", "objective", "loc_sca", "whitening", "mixing", "h_override",
    "one_block", "two_block", "user_index", "call_style", "regression_ols", "regression_robust", "regression_quantile", "uncentred", "trimmed",
    "square", "scaling_object", "compression_fit", "trace_projections", "trace_response", "regression_settings", "trace_settings", "index_settings",
]
ONE = [("var", {}), ("std", {}), ("skew", {}), ("kurt", {}), ("mom", {}), ("var", {"center": "median"})]
TWO = [("cov", {}), ("corr", {}), ("continuum", {}), ("cov", {"center": "median"}), ("cos", {}), ("com", {}), ("cov", {"est": "distance"}), ("corr", {"est": "distance"}), ("M3", {}), ("cok", {}), ("cos", {})]


def gen(rng, tier):
    reps = 500 if tier == "quick" else 8000
    for i in range(reps):
        two = bool(rng.random() < 0.6)
        idx = str(rng.choice(["dicomo", "dicomo", "dicomo", "user"] + (["capi"] if two else [])))
        p = int(rng.integers(2, 5))
        yield {
            "kind": str(rng.choice(["gauss", "corr", "heavy", "skew", "scaled"])),
            "two": two, "idx": idx, "m": int(rng.integers(len(TWO if two else ONE))),
            "p": p, "n": int(rng.choice([12, 25, 50])), "h": int(rng.integers(1, min(p, 3) + 1)),
            "opt": str(rng.choice(["SLSQP", "SLSQP", "grid"])),
            "center": str(rng.choice(["mean", "mean", "median"])),
            "scale": bool(rng.random() < 0.7), "centre": bool(rng.random() < 0.85), "whiten": bool(rng.random() < 0.2),
            "trim": float(rng.choice([0, 0, 0.1])), "square": bool(rng.random() < 0.3),
            "regopt": str(rng.choice(["OLS", "OLS", "robust", "quantile"])),
            "near": float(rng.choice([0, 0, 0, 0, 0.02, 0.003])),
            "alpha": float(rng.choice([1, 0.5, 2])), "bias": bool(rng.random() < 0.3),
        }
    for _ in range(reps // 25):
        yield {"kind": "null", "n": int(rng.integers(15, 60)), "scale": bool(rng.random() < 0.5), "mode": str(rng.choice(["cov", "corr", "capi", "user"])), "a": float(rng.uniform(0.1, 0.8))}
        yield {"kind": "compress", "n": int(rng.integers(8, 12)), "p": int(rng.integers(14, 22)), "h": int(rng.integers(1, 3))}


SET = ("alpha", "trimming", "biascorr", "dmetric")


class Probe:
    """A user supplied projection index that records what it is given."""

    log = []

    def __init__(self, power=2):
        self.power = power

    def fit(self, x, **kw):
        Probe.log.append((np.array(x, float).reshape(-1), None if kw.get("y") is None else np.array(kw["y"], float).reshape(-1), {k: kw.get(k) for k in SET}))
        x = np.asarray(x, float).reshape(-1)
        if kw.get("y") is not None:
            return float(np.mean(x * np.asarray(kw["y"], float).reshape(-1)))
        return float(np.mean(np.abs(x - x.mean()) ** self.power))


def run(case, mon):
    rng = data.rng_of(case)
    if case["kind"] == "compress":
        return compress(case, mon, rng)
    if case["kind"] == "null":
        return null(case, mon, rng)
    n, p, h = case["n"], case["p"], case["h"]
    X = data.matrix(rng, n, p, case["kind"])
    if case.get("near"):  # nearly collinear columns: strongly oblique directions
        X[:, -1] = X[:, :-1].sum(1) + case["near"] * X[:, :-1].sum(1).std() * rng.standard_normal(n)
    y = data.response(rng, X, "linear", 0.3)
    two = case["two"]
    if case["idx"] == "user":
        index, args = Probe, {"power": int(rng.choice([2, 3]))}
    elif case["idx"] == "capi":
        index, args = capi, dict(max_degree=2, projection_index=dicomo, pi_arguments={"est": "arithmetic", "mode": "cov", "center": "mean"}, weights=[1, 0, 0, 0, 0, 0], scaling=True)
    else:
        mode, ex = (TWO if two else ONE)[case["m"]]
        index, args = dicomo, dict(mode=mode, **ex)
    opts = {"ndir": 40, "maxiter": 8} if case["opt"] == "grid" else {"maxiter": 60}
    kw = dict(projection_index=index, pi_arguments=dict(args), n_components=h, trimming=case["trim"], alpha=case["alpha"], optimizer=case["opt"],
              optimizer_options=opts, regopt=case["regopt"], center=case["center"], center_data=case["centre"], scale_data=case["scale"],
              whiten_data=case["whiten"], square_pi=case["square"], verbose=False)
    style = int(rng.integers(3))
    fk = {"biascorr": True} if case["bias"] else {}
    met = "euclidean"
    if rng.random() < 0.35:
        fk["dmetric"] = met = str(rng.choice(["sqeuclidean", "canberra"]))
    opt = None
    if index is dicomo and args["mode"] in ("M3", "cos", "cok") and rng.random() < 0.6:
        fk["option"] = opt = int(rng.integers(1, 3 if args["mode"] != "cok" else 4))
    mix = bool(rng.random() < 0.3)
    if mix:
        fk["mixing"] = True
    hh = h
    if rng.random() < 0.2:
        fk["h"] = hh = max(1, h - 1) if h > 1 else min(p, 2)
    q = 0.5
    if case["regopt"] == "quantile" and rng.random() < 0.5:
        fk["quantile"] = q = 0.3
    fun, probs = "Hampel", [0.95, 0.975, 0.99]
    if case["regopt"] == "robust" and rng.random() < 0.6:
        if rng.random() < 0.5:
            fk["fun"] = fun = str(rng.choice(["Hampel", "Huber", "Fair"]))
        if rng.random() < 0.7:
            probs = [float(v) for v in np.sort(rng.uniform(0.5, 0.999, 3))]
        for i in range(3):
            if probs[i] != [0.95, 0.975, 0.99][i] or rng.random() < 0.5:
                fk["probp%d" % (i + 1)] = probs[i]
        mon._count("regression_settings")
    o = ppdire(**kw)
    lab = "%s %s %s %s" % (case["idx"], args.get("mode"), case["opt"], {k: case[k] for k in ("two", "center", "scale", "centre", "whiten", "trim", "square", "regopt", "alpha", "bias")})
    Probe.log = []
    a = ()
    if two:
        if style == 0:
            a = (y.copy(),)
        else:
            fk["y"] = y.copy() if style == 1 else y[:, None].copy()
    try:
        o.fit(X.copy(), *a, **fk)
    except Exception as ex:
        signed = case["idx"] == "user" or args.get("mode") in ("continuum", "com", "kurt", "skew", "mom", "cos", "cov", "corr")
        if "NaN" in str(ex) and signed and (case["opt"] != "grid" or (hh > 1 and not case["square"])):
            # the local optimiser diverged on an ill-behaved index, or the half-circle grid was left with a null direction
            mon.event("optimiser_failed")
            return
        mon.fail("fit", "%s raised %s: %s" % (lab, type(ex).__name__, ex))
        return
    mon._count("fit")
    W = np.asarray(o.x_weights_, float)
    if not np.isfinite(W).all():
        # an optimiser may fail on a pathological index; nothing to recompute
        mon.event("optimiser_failed")
        return
    mon.ok("h_override", W.shape == (p, hh), "directions of shape %s, expected %s" % (W.shape, (p, hh)))
    cd = case["centre"] or case["whiten"]
    sc = "None" if (not case["scale"] or case["whiten"]) else {"mean": "std", "median": "mad"}[case["center"]]
    Xs, mx, sx = pre(X, case["center"], sc, case["trim"]) if cd else (X, np.zeros(p), np.ones(p))
    ys, my, sy = pre(y[:, None], case["center"], sc, case["trim"]) if cd else (y[:, None], np.zeros(1), np.ones(1))
    for nm, want in (("x_loc_", mx), ("x_sca_", sx)) + ((("y_loc_", my), ("y_sca_", sy)) if two else ()):
        mon.close("loc_sca", np.asarray(getattr(o, nm), float).reshape(-1), want, rtol=1e-9, scale=np.abs(want).max() + np.abs(X).max() * (nm[2:5] == "loc"), msg=nm)
    K0 = np.eye(p)
    if case["whiten"]:
        K = np.asarray(o.whitening_, float)
        K0 = K * np.sqrt(p)
        Z = Xs @ K0
        mon.close("whitening", Z.T @ Z, p * np.eye(p), rtol=1e-7, msg="whitened data are not white")
        mon.ok("whitening", np.linalg.matrix_rank(K) == p, "whitening matrix is singular")
    Win = np.linalg.solve(K0, W)
    Z = Xs @ K0
    mon.ok("unit_directions", np.abs(np.linalg.norm(Win, axis=0) - 1).max() < 1e-8, "%s: direction lengths %s" % (lab, np.linalg.norm(Win, axis=0)))
    E = Z.copy()
    T, P, ev, C, ob = [], [], [], [], []
    opt_args = {"alpha": case["alpha"], "trimming": case["trim"], "biascorr": case["bias"], "dmetric": met}
    if opt:
        opt_args["option"] = opt
    if two:
        opt_args["y"] = ys
    fresh = index(**args)
    log, Probe.log = Probe.log, []
    for i in range(hh):
        t = E @ Win[:, i]
        ob.append(float(np.asarray(fresh.fit(t.reshape(-1, 1).copy(), **dict(opt_args))).reshape(-1)[0]))
        if t @ t <= 1e-20 * (Z * Z).sum():
            mon.event("null_score")
            return
        pv = E.T @ t / (t @ t)
        ev.append(100 * (t @ t) * (pv @ pv) / (Z * Z).sum())
        E = E - np.outer(t, pv)
        T.append(t), P.append(pv)
        if two:
            if case["regopt"] == "OLS":
                C.append(t @ ys[:, 0] / (t @ t))
            elif case["regopt"] == "robust":
                try:
                    r = refpls.rmreg(t[:, None], ys[:, 0], fun, probs, case["center"], sc, 100, 0.01, "specific")
                except Exception:
                    return
                if r["margin"] < 1e-5 or not np.isfinite(r["coef"]).all():
                    mon.event("skipped_robust_margin")
                    return
                r2 = refpls.rmreg(t[:, None] * (1 + 1e-12 * rng.standard_normal(t.shape)[:, None]), ys[:, 0], fun, probs, case["center"], sc, 100, 0.01, "specific")
                if not abs(r2["coef"][0] - r["coef"][0]) <= 1e-8 * (abs(r["coef"][0]) + 1e-9):
                    mon.event("skipped_robust_chaotic")
                    return
                C.append(r["coef"][0])
            else:
                C.append(float(np.asarray(QuantReg(ys, t[:, None]).fit(q=q).params).reshape(-1)[0]))
    T, P, C = np.array(T).T, np.array(P).T, np.array(C)
    cond = np.linalg.cond(P.T @ Win)
    if cond > 1e6:
        mon.event("skipped_singular")
        return
    tol = 1e-7
    mon.seen(X, lab, hh)
    Pout = np.linalg.pinv(K0).T @ P
    R = K0 @ Win @ np.linalg.pinv(P.T @ Win)
    mon.close("scores", o.x_scores_, T, rtol=tol, msg=lab)
    mon.close("loadings", o.x_loadings_, Pout, rtol=tol, msg=lab)
    mon.close("rotations", o.x_rotations_, R, rtol=tol * 10, msg=lab)
    mon.close("x_ev", o.x_ev_, ev, rtol=tol, scale=100, msg=lab)
    G = np.corrcoef(T.T) if False else (T.T @ T) / np.outer(np.linalg.norm(T, axis=0), np.linalg.norm(T, axis=0))
    mon.ok("orthogonal", np.abs(np.asarray(o.x_scores_).T @ np.asarray(o.x_scores_) / np.outer(np.linalg.norm(T, axis=0), np.linalg.norm(T, axis=0)) - np.eye(hh)).max() < 1e-6,
           "%s: scores are not orthogonal" % lab)
    mon._count("two_block" if two else "one_block")
    ob = np.array(ob)
    crit = ob ** 2 if case["square"] else ob
    s = np.abs(ob).max() + 1e-12
    if two:
        mon.close("crit_values", o.crit_values_, crit, rtol=1e-7, scale=max(s, s * s if case["square"] else s), msg=lab)
    want = crit if case["opt"] == "grid" else ob
    got = np.asarray(o.Maxobjf_, float).reshape(-1)
    mon.close("objective", got, want, rtol=1e-6, scale=max(s, s * s if case["square"] else s), msg=lab)
    if met != "euclidean" and args.get("est") == "distance" or opt:
        mon._count("index_settings")
    if case["square"]:
        mon.close("square", got, want, rtol=1e-6, scale=max(s, s * s))
        if case["opt"] != "grid" and not np.allclose(got, crit, rtol=1e-6, atol=1e-6 * s):
            mon.known_finding("square-pi", "square_pi has no effect on the objective")
    if mix:
        mon.close("mixing", o.mixing_, np.linalg.pinv(W), rtol=1e-6)
    so = o.scaling_object_
    mon.ok("scaling_object", (so.center, so.scale) == (case["center"], sc), "scaling object %s/%s, expected %s/%s" % (so.center, so.scale, case["center"], sc))
    Xn = data.matrix(rng, 4, p, "gauss") * X.std(0) + X.mean(0)
    one = refpls.one(sx)
    Tn = ((Xn - mx) / one) @ R
    mon.close("transform", mon.call("transform", "transform", o.transform, Xn), Tn, rtol=tol * 10, scale=np.abs(Tn).max() + np.abs(T).max(), msg=lab)
    mon.close("transform", mon.call("transform", "transform of one case", o.transform, Xn[:1]), Tn[:1], rtol=tol * 10, scale=np.abs(Tn).max() + np.abs(T).max(), msg="one case " + lab)
    mon.close("transform", o.transform(pd.DataFrame(X)), T, rtol=tol * 10, msg="training scores " + lab)
    if case["trim"]:
        mon.close("trimmed", o.x_scores_, T, rtol=tol)
    if not cd:
        mon.close("uncentred", o.x_scores_, T, rtol=tol)
    if case["idx"] == "user":
        mon.event("user_index_evaluations", len(log))
        mon.ok("user_index", len(log) > hh and all(len(x) == n for x, _, _ in log), "user supplied index saw %d projections" % len(log))
        want_set = {"alpha": case["alpha"], "trimming": case["trim"], "biascorr": case["bias"], "dmetric": met}
        bad = [k for _, _, k in log if k != want_set]
        mon.ok("trace_settings", not bad, "%s: the index was evaluated with settings %s, expected %s" % (lab, bad[:1], want_set))
        sp = np.linalg.qr(Z)[0]
        zn = np.linalg.norm(Z)
        bad = [k for k, (x, _, _) in enumerate(log) if np.isfinite(x).all() and np.linalg.norm(x - sp @ (sp.T @ x)) > 1e-6 * max(np.linalg.norm(x), zn)]
        mon.ok("trace_projections", not bad, "%d of %d evaluated vectors are not projections of the data" % (len(bad), len(log)))
        if two:
            mon.ok("trace_response", all(v is not None and np.allclose(v, ys[:, 0]) for _, v, _ in log), "%s: the index was given something else than the pre-processed response" % lab)
        else:
            mon.ok("trace_response", all(v is None for _, v, _ in log), "a one-block index was given a response")
    if style and two:
        mon._count("call_style")
    if not two:
        return
    # regression part
    mon.close("y_loadings", o.y_loadings_, C, rtol=1e-5 if case["regopt"] != "OLS" else tol, scale=np.abs(C).max() + 1e-9, msg=lab)
    mon._count("regression_" + case["regopt"].lower())
    Cg = np.asarray(o.y_loadings_, float).reshape(-1)  # from here on the reported inner coefficients
    Bs = np.array([(np.linalg.pinv(P[:, : i + 1].T @ Win[:, : i + 1]).T @ Win[:, : i + 1].T).T @ Cg[: i + 1] for i in range(hh)]).T
    rat = (refpls.one(np.atleast_1d(sy))[0] / one)[:, None]
    if case["whiten"]:
        B = K0 @ (Bs * refpls.one(np.atleast_1d(sy))[0])
    else:
        B = Bs * rat
        mon.close("coef_scaled", o.coef_scaled_, Bs, rtol=tol * 10, msg=lab)
    mon.close("coef", o.coef_, B, rtol=tol * 10, msg=lab)
    b = B[:, -1]
    res = y - X @ b
    big = np.abs(y).max() + np.abs(X * b).max() * 2
    b0 = float(trim_mean(res, case["trim"])) if case["center"] == "mean" else float(np.median(res))
    mon.close("intercept", np.asarray(o.intercept_, float).reshape(-1), [b0], rtol=1e-6, scale=big, msg=lab)
    if sc != "None" and not case["whiten"]:
        rs = ys[:, 0] - Xs @ Bs[:, -1]
        mon.close("intercept_scaled", np.asarray(o.intercept_scaled_, float).reshape(-1), [rs.mean() if case["center"] == "mean" else np.median(rs)], rtol=1e-6, scale=np.abs(ys).max() * 2 + np.abs(rs).max(), msg=lab)
    fit = X @ b + b0
    mon.close("fitted", np.asarray(o.fitted_).reshape(-1), fit, rtol=1e-6, scale=big, msg=lab)
    mon.close("residuals", np.asarray(o.residuals_).reshape(-1), y - fit, rtol=1e-6, scale=big, msg=lab)
    mon.close("predict", mon.call("predict", "predict", o.predict, Xn), Xn @ b + b0, rtol=1e-6, scale=big + np.abs(Xn * b).max() * 2, msg=lab)
    mon.close("predict", mon.call("predict", "predict of one case", o.predict, Xn[1:2]), Xn[1:2] @ b + b0, rtol=1e-6, scale=big + np.abs(Xn * b).max() * 2, msg="one case " + lab)
    mon.close("predict", o.predict(pd.DataFrame(X)), fit, rtol=1e-6, scale=big, msg=lab)


def pre(X, center, scale, trim):
    """centre and scale with the package's own scaler (decided by C01/C02)"""
    from api import VersatileScaler

    v = VersatileScaler(center=center, scale=scale, trimming=trim)
    Z = np.asarray(v.fit_transform(X.copy()), float)
    return Z, np.asarray(v.col_loc_, float).reshape(-1), np.asarray(v.col_sca_, float).reshape(-1)


class Cov:
    def __init__(self):
        pass

    def fit(self, x, y=None, **kw):
        return float(np.mean((np.asarray(x).reshape(-1) - np.mean(x)) * (np.asarray(y).reshape(-1) - np.mean(y))))


def null(case, mon, rng):
    """two columns of which the first is the first direction: what is left of it is exactly zero,
    and the index is negative in all other directions scanned for the second component"""
    n = case["n"]
    c = lambda v: v - v.mean()
    y = c(rng.standard_normal(n))
    x1 = c(y + 0.3 * rng.standard_normal(n))
    e = c(rng.standard_normal(n)) * 0.5
    x2 = case["a"] * x1 + e
    x2 = x2 - y * (x2 @ y) / (y @ y)  # unrelated to the response
    X = np.column_stack([x1, x2]) + rng.uniform(-3, 3, 2)
    args = {"est": "arithmetic", "mode": "cov", "center": "mean"}
    if case["mode"] == "capi":
        index, args = capi, dict(max_degree=2, projection_index=dicomo, pi_arguments=args, weights=[1, 0, 0, 0, 0, 0], scaling=False)
    elif case["mode"] == "user":
        index, args = Cov, {}
    else:
        index, args = dicomo, dict(args, mode=case["mode"])
    o = ppdire(projection_index=index, pi_arguments=args, n_components=2, optimizer="grid", optimizer_options={"ndir": 40, "maxiter": 8}, scale_data=case["scale"], verbose=False)
    mon.call("null_projection", "%s fit of two components" % case["mode"], o.fit, X.copy(), y.copy())
    W, T = np.asarray(o.x_weights_, float), np.asarray(o.x_scores_, float)
    mon.seen(case["mode"], X)
    if case["mode"] != "corr" and abs(W[0, 0]) == 1:
        mon.event("first_direction_is_a_column")
    ok = np.isfinite(T).all() and np.isfinite(W).all() and np.abs(np.linalg.norm(W, axis=0) - 1).max() < 1e-9
    nt = np.linalg.norm(T, axis=0)
    mon.ok("null_projection", ok and nt.min() > 1e-6 * nt.max() and abs(T[:, 0] @ T[:, 1]) < 1e-6 * nt[0] * nt[1], "%s: directions %s, norms of the scores %s" % (case["mode"], W.tolist(), nt))
    D = np.column_stack([np.ones(n), X])
    f = D @ np.linalg.lstsq(D, y, rcond=None)[0]
    mon.close("null_projection", np.asarray(o.fitted_, float)[:, -1] if np.ndim(o.fitted_) == 2 else o.fitted_, f, rtol=1e-6, scale=np.abs(y).max(), msg="both directions together are least squares")


def compress(case, mon, rng):
    n, p, h = case["n"], case["p"], case["h"]
    X = rng.standard_normal((n, p))
    y = X @ rng.standard_normal(p) + 0.1 * rng.standard_normal(n)
    o = ppdire(projection_index=dicomo, pi_arguments={"mode": "cov"}, n_components=h, compression=True, verbose=False, optimizer_options={"maxiter": 100})
    mon.call("compression_fit", "fit(compression)", o.fit, X.copy(), y.copy())
    mon.ok("compression_fit", np.asarray(o.coef_).shape == (p, h) and np.asarray(o.x_weights_).shape == (p, h), "coefficient shape %s" % (np.asarray(o.coef_).shape,))
    f = np.asarray(o.fitted_).reshape(-1)
    mon.close("compression_fit", o.predict(X), f, rtol=1e-8, scale=np.abs(y).max() * 2)
    mon.close("compression_fit", np.asarray(o.residuals_).reshape(-1), y - f, rtol=1e-8, scale=np.abs(y).max() * 2)
    # directions live in the row space of the data
    V = np.linalg.svd(X, full_matrices=False)[2].T
    W = np.asarray(o.x_weights_, float)
    mon.ok("compression_fit", np.abs(W - V @ (V.T @ W)).max() < 1e-8, "compressed directions leave the row space")
    T = np.asarray(o.transform(X), float)
    if not np.allclose(T, o.x_scores_, rtol=1e-6, atol=1e-6 * np.abs(T).max()):
        mon.known_finding("compression-scores", "transform(training data) differs from x_scores_ under compression")
    mon.seen("compress", X)
