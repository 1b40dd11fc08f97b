"""Robust M regression."""
import numpy as np
import pandas as pd

import data
import refpls
from api import rm

RULE = (
    "seeded regression data (clean, vertical and leverage outliers, ties, heavy tails, badly scaled) over weight function, cut-offs, centre, "
    "scale, tolerance and iteration limit; the final state compared with independent iteratively reweighted least squares; non-trivial = a "
    "distinct fit with at least one case weight below 1"
)
ASSUMPTIONS = ["runs where convergence or the weight floor is decided within rounding of its threshold are skipped", "location and scale estimators are decided by C01/C02"]
CLAUSES = [
    "fit", "coef", "coef_scaled", "intercept", "intercept_scaled", "fitted", "residuals", "caseweights", "x_caseweights", "y_caseweights",
    "loc_sca", "predict", "weights_range", "fixed_point", "iterated", "early_stop", "exact_fit", "row_permutation", "zero_weight_case",
    "sign_equivariant", "scale_equivariant",
]


def gen(rng, tier):
    reps = 4000 if tier == "quick" else 20000
    for i in range(reps):
        p = int(rng.integers(1, 7))
        p1 = float(rng.choice([0.95, 0.95, 0.8, 0.9, 0.6]))
        cs = [("median", "mad")] * 3 + [("mean", "std"), ("mean", "None"), ("median", "None"), ("l1median", "mad"), ("mean", "mad"), ("median", "std"), ("kstepLTS", "mad")]
        c, s = cs[int(rng.integers(len(cs)))]
        yield {
            "kind": str(rng.choice(["gauss", "corr", "heavy", "ties", "outliers", "scaled"])),
            "n": int(p + rng.choice([8, 14, 40, 90])), "p": p,
            "fun": ["Hampel", "Huber", "Fair"][i % 3],
            "probs": [p1, p1 + (1 - p1) * 0.5, p1 + (1 - p1) * 0.95],
            "centre": c, "scale": s,
            "mode": str(rng.choice(["specific", "specific", "equal"])),
            "tol": float(rng.choice([0.01, 1e-4, 1e-9])),
            "maxit": int(rng.choice([100, 100, 1, 3])),
            "vertical": float(rng.choice([0, 0.1, 0.25])),
        }
    yield from add_halfzero(rng, tier)


def add_halfzero(rng, tier):
    for i in range(200 if tier == "quick" else 1500):
        p1 = float(rng.choice([0.95, 0.8, 0.9]))
        p = int(rng.integers(1, 4))
        yield {"kind": "halfzero", "n": int(2 * rng.integers(p + 5, 30)), "p": p, "fun": ["Hampel", "Huber", "Fair"][i % 3], "probs": [p1, p1 + (1 - p1) * 0.5, p1 + (1 - p1) * 0.95],
               "centre": "None", "scale": "None", "mode": str(rng.choice(["specific", "equal"])), "tol": float(rng.choice([0.01, 1e-4])), "maxit": int(rng.choice([100, 1, 3])), "vertical": 0.0}


def make(case, **kw):
    a = dict(fun=case["fun"], probp1=case["probs"][0], probp2=case["probs"][1], probp3=case["probs"][2], centre=case["centre"], scale=case["scale"],
             verbose=False, maxit=case["maxit"], tol=case["tol"], start_cutoff_mode=case["mode"])
    a.update(kw)
    return rm(**a)


def run(case, mon):
    rng = data.rng_of(case)
    n, p = case["n"], case["p"]
    X = data.matrix(rng, n, p, case["kind"] if case["kind"] != "halfzero" else "gauss")
    y = data.response(rng, X, "linear", 0.3)
    if case["kind"] == "halfzero":
        # inactive cases: no signal in either block, as many as there are active ones
        z = rng.choice(n, n // 2, replace=False)
        y = X @ rng.uniform(1, 3, p) + 0.5 * rng.standard_normal(n)
        X[z], y[z] = 0.0, 0.0
        mon.event("half_of_the_residuals_zero")
    k = int(case["vertical"] * n)
    if k:
        y[rng.choice(n, k, replace=False)] += rng.choice([-1, 1], k) * rng.uniform(5, 100, k) * y.std()
    try:
        R = refpls.rmreg(X, y, case["fun"], case["probs"], case["centre"], case["scale"], case["maxit"], case["tol"], case["mode"])
    except np.linalg.LinAlgError:
        mon.event("skipped_degenerate")
        return
    if not np.isfinite(R["coef"]).all() or R["cond"] > 1e9 or R["margin"] < 1e-5:
        mon.event("skipped_degenerate")
        return
    Xin = [X, pd.DataFrame(X), np.asfortranarray(X)][int(rng.integers(3))]
    yin = [y, y[:, None], pd.Series(y), pd.DataFrame({"y": y})][int(rng.integers(4))]
    o = make(case)
    r = mon.call("fit", "rm.fit", o.fit, Xin.copy(), yin.copy())
    mon.ok("fit", r is o, "fit does not return the estimator")
    lab = "%s %s/%s %s tol %g maxit %d" % (case["fun"], case["centre"], case["scale"], case["mode"], case["tol"], case["maxit"])
    tol = max(1e-7, 1e-13 * R["cond"] * 100) if case["centre"] not in ("l1median", "kstepLTS") else 1e-5
    if (R["w"] < 1).any():
        mon.seen(X, y, lab, case["probs"])
    b = np.asarray(o.coef_, float).reshape(-1)
    mon.close("coef", b, R["coef"], rtol=tol, msg=lab)
    mon.close("coef_scaled", o.coef_scaled_, R["b"], rtol=tol, msg=lab)
    big = np.abs(y).max() + np.abs(X * R["coef"]).max() * 2
    mon.close("intercept", o.intercept_, R["intercept"], rtol=tol, scale=big, msg=lab)
    mon.close("intercept_scaled", o.intercept_scaled_, R["b0s"], rtol=tol, scale=big / min(1.0, max(float(R["sy"]), 1e-12)), msg=lab)
    mon.close("fitted", np.asarray(o.fitted_).reshape(-1), R["fitted"], rtol=tol, scale=big, msg=lab)
    mon.close("residuals", np.asarray(o.residuals_).reshape(-1), R["resid"], rtol=tol, scale=big, msg=lab)
    for a, q in (("caseweights_", "w"), ("x_caseweights_", "wx"), ("y_caseweights_", "wy")):
        mon.close(a.rstrip("_"), getattr(o, a), R[q], rtol=0, atol=max(tol, 1e-6), msg=a + " " + lab)
        v = np.asarray(getattr(o, a), float)
        mon.ok("weights_range", v.shape == (n,) and (v >= 0).all() and (v <= 1 + 1e-12).all(), "%s outside [0,1]" % a)
    if (R["w"] == 0).any():
        mon.ok("zero_weight_case", (np.asarray(o.caseweights_)[R["w"] == 0] == 0).all(), "omitted cases keep weight")
    for a, q in (("x_loc_", "mx"), ("x_sca_", "sx"), ("y_loc_", "my"), ("y_sca_", "sy")):
        mon.close("loc_sca", getattr(o, a), R[q], rtol=1e-6, msg=a)
    if len(R["trace"]) > 1:
        mon._count("iterated")
        mon.event("irls_iterations", len(R["trace"]))
    if R["broke"] or R["iters"] > case["maxit"]:
        mon.close("early_stop", b, R["coef"], rtol=tol, msg=lab)
    Xn = data.matrix(rng, 5, p, "gauss") * X.std(0) + X.mean(0)
    mon.close("predict", mon.call("predict", "predict", o.predict, Xn), Xn @ R["coef"] + R["intercept"], rtol=tol, scale=big + np.abs(Xn * R["coef"]).max() * 2)
    mon.close("predict", np.asarray(o.predict(Xin)).reshape(-1), R["fitted"], rtol=tol, scale=big)
    # converged: weighted least squares with the reported weights reproduces the fit
    if case["tol"] <= 1e-9 and R["diff"] <= case["tol"] and not R["broke"] and len(R["trace"]) > 2:
        Xs, ys = (X - R["mx"]) / refpls.one(R["sx"]), (y - R["my"]) / refpls.one(np.atleast_1d(R["sy"]))[0]
        rt = np.sqrt(np.maximum(np.asarray(o.caseweights_, float), 1e-6))
        nb = np.linalg.lstsq(Xs * rt[:, None], ys * rt, rcond=None)[0]
        ob = np.asarray(o.coef_scaled_, float).reshape(-1)
        mon.ok("fixed_point", abs((nb ** 2).sum() - (ob ** 2).sum()) <= 1e-5 * (ob ** 2).sum(), "one more step moves |b|^2 from %g to %g" % ((ob ** 2).sum(), (nb ** 2).sum()))
    if case["centre"] in ("mean", "median") and R["margin"] > 1e-3:
        pr = rng.permutation(n)
        o2 = make(case).fit(X[pr].copy(), y[pr].copy())
        mon.close("row_permutation", o2.coef_, R["coef"], rtol=tol * 10, msg=lab)
        mon.close("row_permutation", o2.caseweights_, R["w"][pr], rtol=0, atol=max(tol * 10, 1e-6), msg=lab)
        o3 = make(case).fit(X.copy(), -y)
        mon.close("sign_equivariant", o3.coef_, -R["coef"], rtol=tol * 10, msg=lab)
        if case["scale"] != "None":
            a, c = rng.uniform(0.2, 5, p), float(rng.uniform(0.2, 5))
            o4 = make(case).fit(X * a + 2.0, y * c - 1.0)
            mon.close("scale_equivariant", np.asarray(o4.coef_).reshape(-1) * a / c, R["coef"], rtol=tol * 10, msg=lab)
    # data exactly on a plane through the centre are fitted exactly (mean/std)
    if rng.random() < 0.3 and R["cond"] < 1e6:
        bb = rng.standard_normal(p)
        ye = X @ bb + 1.5
        oe = rm(fun=case["fun"], centre="mean", scale=case["scale"], verbose=False)
        ye2 = ye + 1e-9 * ye.std() * rng.standard_normal(n)
        mon.call("exact_fit", "fit", oe.fit, X.copy(), ye2)
        mon.ok("exact_fit", np.abs(np.asarray(oe.predict(X)).reshape(-1) - ye).max() <= 1e-5 * (np.abs(ye).max() + np.abs(X * bb).max()), "noiseless plane not recovered")
