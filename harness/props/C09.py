"""Sparse partial robust M regression."""
import numpy as np
import pandas as pd

import data
import refpls
from api import snipls, sprm

RULE = (
    "seeded regression data (clean, vertical and leverage outliers, tied, heavy tailed, constant columns, wide) over weight function, "
    "probability cut-offs, starting modes, centre, scale, sparsity, components, tolerance and iteration limit; the final state compared with "
    "an independent iteratively reweighted sparse PLS; non-trivial = a distinct fit with at least one case weight below 1"
)
ASSUMPTIONS = [
    "inputs on which the reweighting iteration is chaotic (a 1e-12 perturbation moves the result by more than 1e-7) are skipped",
    "runs where a discrete decision (convergence, variable selection, number of starting components, weight floor) is within rounding of its threshold are skipped",
    "location and scale estimators are decided by C01/C02, sparse PLS by C08",
]
CLAUSES = [
    "fit", "coef", "coef_scaled", "intercept", "intercept_scaled", "fitted", "residuals", "caseweights", "x_caseweights", "y_caseweights",
    "scores", "rotation", "pls_weights", "pls_loadings", "inner", "x_ev", "y_ev", "loc_sca", "selected", "kept_vars", "predict", "transform",
    "weights_range", "fixed_point", "early_stop", "iterated", "zero_weight_case", "start_abs", "names", "weightnewx", "valscore",
]


def gen(rng, tier):
    reps = 900 if tier == "quick" else 12000
    for i in range(reps):
        wide = rng.random() < 0.2
        p = int(rng.integers(2, 7)) if not wide else int(rng.integers(12, 25))
        n = int(rng.integers(12, 20)) if wide else int(p + rng.choice([8, 14, 40, 90]))
        p1 = float(rng.choice([0.95, 0.95, 0.8, 0.9, 0.6]))
        cs = [("median", "mad")] * 3 + [("mean", "std"), ("mean", "None"), ("median", "None"), ("l1median", "mad"), ("kstepLTS", "scaleTau2"), ("mean", "mad"), ("median", "std"), ("None", "None")]
        c, s = cs[int(rng.integers(len(cs)))]
        yield {
            "kind": str(rng.choice(["gauss", "corr", "heavy", "ties", "outliers", "scaled"])),
            "n": n, "p": p, "h": int(rng.integers(1, min(p, 4) + 1)),
            "eta": float(rng.choice([0, 0, 0.2, 0.5, 0.8])),
            "fun": ["Hampel", "Huber", "Fair"][i % 3],
            "probs": [p1, p1 + (1 - p1) * 0.5, p1 + (1 - p1) * 0.95],
            "centre": c, "scale": s,
            "mode": str(rng.choice(["specific", "specific", "equal"])),
            "init": str(rng.choice(["pcapp", "pcapp", "X"])),
            "tol": float(rng.choice([0.01, 1e-4, 1e-9])),
            "maxit": int(rng.choice([100, 30, 1, 3])),
            "vertical": float(rng.choice([0, 0, 0.1, 0.25])),
            "const": bool(rng.random() < 0.1),
            "unit": float(rng.choice([0, 0, 0, -3.5, 4])),
            "spike": float(rng.choice([0, 0, 0, 0.3, 0.45])),
        }


def build(case):
    rng = data.rng_of(case)
    n, p = case["n"], case["p"]
    X = data.matrix(rng, n, p, case["kind"])
    y = data.response(rng, X, "linear", 0.3)
    k = int(case["vertical"] * n)
    if k:
        y[rng.choice(n, k, replace=False)] += rng.choice([-1, 1], k) * rng.uniform(5, 100, k) * y.std()
    if case.get("spike"):  # e.g. a count or censored response: many cases share the central value
        y[rng.choice(n, int(case["spike"] * n), replace=False)] = np.round(np.median(y), 2)
    X = X * 10.0 ** case.get("unit", 0)
    if case["const"] and p > case["h"] + 1:
        X[:, int(rng.integers(p))] = 3.5
    return rng, X, y


def make(case, **kw):
    a = dict(n_components=case["h"], eta=case["eta"], fun=case["fun"], probp1=case["probs"][0], probp2=case["probs"][1], probp3=case["probs"][2],
             centre=case["centre"], scale=case["scale"], verbose=False, maxit=case["maxit"], tol=case["tol"], start_cutoff_mode=case["mode"],
             start_X_init=case["init"])
    a.update(kw)
    return sprm(**a)


def reference(case, X, y, signed):
    return refpls.sprm(X, y, case["h"], case["eta"], case["fun"], case["probs"], case["centre"], case["scale"], case["maxit"], case["tol"],
                       case["mode"], case["init"], signed)


def stable(case, X, y, R, signed=True):
    """The reweighting iteration can be chaotic: rounding decides its result.
    Only inputs on which a relative perturbation of 1e-12 (ten thousand times
    rounding) moves the result by less than 1e-7 are compared."""
    rng = data.rng_of(case, 99)
    rough = case["centre"] in ("l1median", "kstepLTS")  # found by an iterative optimiser
    eps, lim = (1e-8, 1e-4) if rough else (1e-12, 1e-7)
    for _ in range(2):
        try:
            Q = reference(case, X * (1 + eps * rng.standard_normal(X.shape)), y * (1 + eps * rng.standard_normal(len(y))), signed)
        except (np.linalg.LinAlgError, IndexError, ValueError):
            return False
        if len(Q["keep"]) != len(R["keep"]) or not np.isfinite(Q["coef"]).all():
            return False
        for k in ("b", "w", "wx", "wy"):
            if np.abs(Q[k] - R[k]).max() > lim * max(1e-300, np.abs(R[k]).max()):
                return False
        for k in ("W", "P", "T"):
            a, b = getattr(Q["m"], k), getattr(R["m"], k)
            if np.abs(a - b).max() > lim * np.abs(b).max():
                return False
    return True


def run(case, mon):
    rng, X, y = build(case)
    n, p = X.shape
    try:
        R = reference(case, X, y, True)
    except (np.linalg.LinAlgError, IndexError, ValueError):
        mon.event("skipped_singular")
        return
    if not np.isfinite(R["coef"]).all() or R["cond"] > 1e8 or R["margin"] < 1e-5 or not np.isfinite(R["w"]).all():
        mon.event("skipped_degenerate")
        return
    if not stable(case, X, y, R):
        mon.event("skipped_chaotic_iteration")
        return
    names = ["v%d" % j for j in range(p)]
    how = int(rng.integers(4))
    cols, Xin = [(False, X), (list(names), X), (True, pd.DataFrame(X, columns=names)), (pd.Index(names), X)][how]
    yin = [y, y[:, None], pd.Series(y), pd.DataFrame({"y": y})][int(rng.integers(4))]
    o = make(case, columns=cols)
    r = mon.call("fit", "sprm.fit", o.fit, Xin.copy(), yin.copy())
    mon.ok("fit", r is o, "fit does not return the estimator")
    tol = 1e-6 if case["centre"] not in ("l1median", "kstepLTS") else 1e-4
    lab = "%s h%d eta %g %s/%s %s %s tol %g maxit %d" % (case["fun"], case["h"], case["eta"], case["centre"], case["scale"], case["mode"], case["init"], case["tol"], case["maxit"])
    b = np.asarray(o.coef_, float).reshape(-1)
    signed_matters = (case["centre"], case["scale"]) != ("median", "mad")
    if signed_matters:
        A = reference(case, X, y, False)
        if not stable(case, X, y, A, False):
            A = R
        mon._count("start_abs")
        same_abs = np.allclose(A["coef"], R["coef"], rtol=1e-6, atol=1e-6 * np.abs(R["coef"]).max()) and np.allclose(A["w"], R["w"], atol=1e-6)
        gw = np.asarray(o.caseweights_, float)
        dev = [np.abs(b - Z["coef"]).max() / np.abs(Z["coef"]).max() + np.abs(gw - Z["w"]).max() for Z in (A, R)]
        if not same_abs and dev[0] < dev[1]:
            R = A
        elif not same_abs:
            mon.known_finding("signed-start", "starting response weights ignore the sign of the deviation")
    if (R["w"] < 1).any():
        mon.seen(X, y, lab, case["probs"])
    mon.close("coef", b, R["coef"], rtol=tol, msg=lab)
    mon.close("coef_scaled", o.coef_scaled_, R["b"], rtol=tol, msg=lab)
    big = np.abs(y).max() + np.abs(X[:, R["keep"]] * R["coef"]).max() * 2
    mon.close("intercept", o.intercept_, R["intercept"], rtol=tol, scale=big, msg=lab)
    mon.close("intercept_scaled", o.intercept_scaled_, R["b0s"], rtol=tol, scale=big / min(1.0, max(float(R["sy"]), 1e-12)), msg=lab)
    mon.close("fitted", np.asarray(o.fitted_).reshape(-1), R["fitted"], rtol=tol, scale=big, msg=lab)
    mon.close("residuals", np.asarray(o.residuals_).reshape(-1), R["resid"], rtol=tol, scale=big, msg=lab)
    for a, k in (("caseweights_", "w"), ("x_caseweights_", "wx"), ("y_caseweights_", "wy")):
        mon.close(a.rstrip("_"), getattr(o, a), R[k], rtol=0, atol=max(tol, 1e-6), msg=a + " " + lab)
        v = np.asarray(getattr(o, a), float)
        mon.ok("weights_range", v.shape == (n,) and (v >= 0).all() and (v <= 1 + 1e-12).all(), "%s outside [0,1]" % a)
    if (R["w"] == 0).any():
        mon.ok("zero_weight_case", (np.asarray(o.caseweights_)[R["w"] == 0] == 0).all(), "omitted cases keep weight")
    mon.close("scores", o.x_scores_, R["T"], rtol=tol, msg=lab)
    mon.close("rotation", o.x_Rweights_, R["R"], rtol=tol, msg=lab)
    m = R["m"]
    mon.close("pls_weights", o.x_weights_, m.W, rtol=tol, msg=lab)
    mon.close("pls_loadings", o.x_loadings_, m.P, rtol=tol, msg=lab)
    mon.close("inner", o.C_, m.C, rtol=tol * 10, scale=np.abs(m.C).max() + np.abs(m.C[0]), msg=lab)
    mon.close("x_ev", o.x_ev_, m.xev, rtol=tol, scale=100, msg=lab)
    mon.close("y_ev", o.y_ev_, m.yev, rtol=tol, scale=100, msg=lab)
    for a, k in (("x_loc_", "mx"), ("x_sca_", "sx"), ("y_loc_", "my"), ("y_sca_", "sy")):
        mon.close("loc_sca", getattr(o, a), R[k], rtol=1e-6, msg=a)
    mon.ok("kept_vars", np.array_equal(np.asarray(o.non_zero_scale_vars_), R["keep"]), "kept %s expected %s" % (o.non_zero_scale_vars_, R["keep"]))
    act = np.where(m.active[-1])[0]
    if how == 0:
        mon.ok("selected", np.array_equal(np.asarray(o.colret_, float), act), "colret_ %s, expected %s" % (o.colret_, act))
    else:
        mon.ok("names", list(o.colret_) == [names[j] for j in R["keep"][act]], "colret_ %s, expected columns %s" % (o.colret_, R["keep"][act]))
    if len(R["trace"]) > 1:
        mon._count("iterated")
        mon.event("irls_iterations", len(R["trace"]))
    if R["broke"] or R["iters"] > case["maxit"]:
        mon.close("early_stop", b, R["coef"], rtol=tol, msg=lab)
        mon.event("stopped_before_convergence")
    # prediction and projection of new cases
    Xn = data.matrix(rng, 5, p, "gauss") * X.std(0) + X.mean(0)
    full = np.zeros(p)
    full[R["keep"]] = R["coef"]
    mon.close("predict", mon.call("predict", "predict", o.predict, Xn), Xn @ full + R["intercept"], rtol=tol, scale=big + np.abs(Xn * full).max() * 2)
    mon.close("predict", np.asarray(o.predict(Xin)).reshape(-1), R["fitted"], rtol=tol, scale=big)
    k = R["keep"]
    Tn = ((Xn[:, k] - R["mx"][k]) / R["sx"][k]) @ R["R"]
    mon.close("transform", mon.call("transform", "transform", o.transform, Xn), Tn, rtol=tol, scale=np.abs(Tn).max() + np.abs(R["T"]).max())
    mon.close("transform", o.transform(Xin), R["T"], rtol=tol)
    # weights for new cases: formula on the batch
    Xb = data.matrix(rng, 12, p, "gauss") * (X.std(0) + 0.1) + X.mean(0)
    Xb[0] += 25 * X.std(0)
    Tb = ((Xb[:, k] - R["mx"][k]) / R["sx"][k]) @ R["R"]
    tscale = case["scale"]
    if tscale == "None" or (tscale == "scaleTau2" and (refpls.ref.cols(refpls.ref.r_mad, X) == 0).any()):
        tscale = "mad"
    d = np.sqrt((refpls.standardize(Tb, case["centre"], tscale)[0] ** 2).sum(1))
    want = refpls.weights(case["fun"], d / np.median(d), *R["cx"])
    got = mon.call("weightnewx", "weightnewx", o.weightnewx, Xb)
    mon.close("weightnewx", np.asarray(got).reshape(-1), want, rtol=0, atol=1e-3 if case["centre"] in ("l1median", "kstepLTS") else 1e-6, msg=lab)
    w1 = np.asarray(o.weightnewx(Xb[:1]), float)
    if w1.size == 1 and not np.isclose(w1[0], want[0], atol=1e-6):
        mon.known_finding("weightnewx-batch", "weightnewx standardises with the new batch's own centre and scale")
    # validation score: R^2 of the predictions, weighted with the case weights
    yy, ff, w = y, R["fitted"], R["w"]
    for sc, ww in (("normal", np.ones(n)), ("weighted", w)):
        if ww.sum() == 0:
            continue
        den = (ww * (yy - np.average(yy, weights=ww)) ** 2).sum()
        want = 1 - (ww * (yy - ff) ** 2).sum() / den
        mon.close("valscore", mon.call("valscore", "valscore", o.valscore, X.copy(), y.copy(), sc), want, rtol=max(1e-5, tol), scale=1 + abs(want))
    # at convergence the coefficients are those of sparse PLS on the weighted data
    if case["tol"] <= 1e-9 and R["diff"] <= case["tol"] and not R["broke"] and len(R["trace"]) > 2:
        Xs = (X[:, k] - R["mx"][k]) / R["sx"][k]
        ys = (y - R["my"]) / refpls.one(np.atleast_1d(R["sy"]))[0]
        rt = np.sqrt(np.maximum(np.asarray(o.caseweights_, float), 1e-6))
        s = snipls(eta=case["eta"], n_components=case["h"], verbose=False, centre="mean", scale="None").fit(Xs * rt[:, None], ys * rt)
        nb, ob = (np.asarray(v, float).reshape(-1) for v in (s.coef_, o.coef_scaled_))
        mon.ok("fixed_point", abs((nb ** 2).sum() - (ob ** 2).sum()) <= 1e-5 * (ob ** 2).sum(), "one more step moves |b|^2 from %g to %g" % ((ob ** 2).sum(), (nb ** 2).sum()))
