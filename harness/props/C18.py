"""New data: every case is treated on its own, consistently with the fit."""
import numpy as np
import pandas as pd

import data
import zoo

RULE = (
    "every fitted predictor and transformer (random valid settings) applied to the training cases and to new cases in batches, one by one, permuted, repeated, "
    "in the company of gross outliers and as mixtures; outputs compared case by case with each other and with the stored fit; non-trivial = a distinct fitted model"
)
ASSUMPTIONS = ["sparse single component models store scores of the deflated training data (recorded finding of C08): their training scores are compared for eta=0 only",
               "GenSpatialSignPreProcessor.transform is excluded (recorded finding of C03)"]
NM = ["sprm", "snipls", "rm", "ppdire", "ppdire1", "sudire", "sudire_opt", "scaler", "wrapper"]
CLAUSES = ["model_" + n for n in NM] + ["single_case", "vector_case", "permuted", "repeated", "company", "split", "frame", "fitted", "residuals", "training_scores", "affine", "score", "constant_shift",
                                        "far_data", "fit_transform", "univariate_model", "valscore"]


def gen(rng, tier):
    reps = 90 if tier == "quick" else 2500
    for i in range(reps):
        for nm in NM:
            yield {"kind": "est", "name": nm, "data": str(rng.choice(["corr", "gauss", "scaled", "heavy", "ties"])), "n": int(rng.choice([20, 31])), "p": int(rng.choice([1, 2, 3, 4, 6])), "m": int(rng.integers(1, 9))}


def run(case, mon):
    rng = data.rng_of(case)
    nm, p, n = case["name"], case["p"], case["n"]
    if p == 1 and nm not in ("rm", "scaler", "wrapper", "snipls", "sprm"):
        p = 2
    c = zoo.config(rng, nm, p)
    X, y = zoo.make_data(rng, nm, n, p, case["data"] if nm != "sudire_opt" else "gauss")
    lab = "%s %s p=%d" % (nm, c["kw"], p)
    est = zoo.build(c)
    try:
        zoo.fit(est, c, X.copy(), y.copy())
        base = zoo.outputs(est, c, X.copy())
    except Exception as ex:
        mon.event("fit_failed")
        return
    if not all(np.isfinite(v).all() for v in base.values()):
        mon.event("not_finite")
        return
    mon.seen(lab, X)
    mon._count("model_" + nm)
    if p == 1:
        mon._count("univariate_model")
    m = case["m"]
    kind = int(rng.integers(3))
    Xn = X[rng.integers(0, n, m)] * 0.6 + X[rng.integers(0, n, m)] * 0.4 if kind else X[rng.integers(0, n, m)].copy()
    if kind == 2:
        Xn = Xn + 50 * X.std(0) * rng.standard_normal(Xn.shape)
        mon._count("far_data")
    out = {}
    for k, v in mon.call("split", "%s on %d cases" % (lab, m), zoo.outputs, est, c, Xn.copy()).items():
        if not mon.ok("split", len(v) == m, "%s: %s returns %s for %d cases" % (lab, k, v.shape, m)):
            return
        out[k] = v.reshape(m, -1)
    sc = scale_of(est, c, Xn, X, out)

    def cmp(clause, Xa, want, what):
        got = mon.call(clause, "%s %s" % (lab, what), zoo.outputs, est, c, Xa)
        for k in out:
            mon.close(clause, got[k].reshape(len(want[k]), -1), want[k], rtol=1e-10, scale=sc[k], msg="%s %s: %s" % (lab, what, k))

    i = int(rng.integers(m))
    cmp("single_case", Xn[i : i + 1].copy(), {k: v[i : i + 1] for k, v in out.items()}, "one case")
    if nm in ("sprm", "snipls", "rm") or (nm in ("scaler", "wrapper") and p > 1):
        cmp("vector_case", Xn[i].copy(), {k: v[i : i + 1] for k, v in out.items()}, "one case as a vector")
        if nm in ("sprm", "snipls", "rm"):
            cmp("vector_case", pd.Series(Xn[i], index=["v%d" % j for j in range(p)]), {k: v[i : i + 1] for k, v in out.items()}, "one case as a Series")
    pr = rng.permutation(m)
    cmp("permuted", Xn[pr], {k: v[pr] for k, v in out.items()}, "permuted")
    rp = rng.integers(0, m, m + 3)
    cmp("repeated", Xn[rp], {k: v[rp] for k, v in out.items()}, "repeated")
    h = m // 2
    if h:
        cmp("split", Xn[:h], {k: v[:h] for k, v in out.items()}, "first half")
        cmp("split", Xn[h:], {k: v[h:] for k, v in out.items()}, "second half")
    far = np.vstack([Xn, 1e4 * X.std(0) * rng.standard_normal((3, p))])
    got = zoo.outputs(est, c, far)
    for k in out:
        mon.close("company", got[k].reshape(m + 3, -1)[:m], out[k], rtol=1e-10, scale=sc[k], msg="%s: outliers in the batch change %s of the other cases" % (lab, k))
    cmp("frame", pd.DataFrame(Xn, index=rng.permutation(m) + 5, columns=["v%d" % (9 - j) for j in range(p)]), out, "as a frame")
    # affine maps
    if nm != "wrapper" and m > 1:
        a = float(rng.uniform(-0.5, 1.5))
        Xm = a * Xn[:1] + (1 - a) * Xn[1:2]
        got = zoo.outputs(est, c, Xm)
        for k in out:
            mon.close("affine", got[k].reshape(1, -1), a * out[k][:1] + (1 - a) * out[k][1:2], rtol=1e-9, scale=sc[k] * 3, msg="%s: %s is not affine" % (lab, k))
    # consistency with the fit
    if nm in zoo.REGRESSORS:
        pred = base["predict"].reshape(-1)
        s = sc["predict"]
        if nm.startswith("sudire"):
            mon.close("fitted", np.asarray(est.ols_obj_.fittedvalues).reshape(-1), pred, rtol=1e-9, scale=s, msg=lab)
            mon.close("residuals", np.asarray(est.ols_obj_.resid).reshape(-1), y - pred, rtol=1e-9, scale=s, msg=lab)
        else:
            mon.close("fitted", np.asarray(est.fitted_).reshape(-1), pred, rtol=1e-9, scale=s, msg=lab)
            mon.close("residuals", np.asarray(est.residuals_).reshape(-1), y - pred, rtol=1e-9, scale=s, msg=lab)
        r2 = 1 - np.sum((y - pred) ** 2) / np.sum((y - y.mean()) ** 2)
        mon.close("score", est.score(X, y), r2, rtol=1e-9, scale=max(1, abs(r2)), msg=lab)
        q = zoo.outputs(est, c, Xn + 1.0)["predict"].reshape(-1) - out["predict"].reshape(-1)
        mon.close("constant_shift", q, np.full(m, q[0]), rtol=1e-9, scale=s + np.abs(q).max(), msg="%s: shifting all cases does not shift all predictions alike" % lab)
        if nm == "sprm":
            w = np.asarray(est.caseweights_).reshape(-1)
            mon.close("valscore", est.valscore(X, y, "normal"), r2, rtol=1e-9, scale=max(1, abs(r2)))
            yb = np.average(y, weights=w)
            rw = 1 - np.sum(w * (y - pred) ** 2) / np.sum(w * (y - yb) ** 2)
            mon.close("valscore", est.valscore(X, y, "weighted"), rw, rtol=1e-9, scale=max(1, abs(rw)))
    if "transform" in base and nm not in ("scaler", "wrapper"):
        if not (nm == "snipls" and c["kw"]["eta"] > 0):
            T = np.asarray(est.x_scores_, float)
            if nm.startswith("ppdire"):
                nt = np.linalg.norm(T, axis=0)
                W = np.asarray(est.x_weights_, float)
                if nt.min() < 1e-6 * nt.max() or np.linalg.cond(np.asarray(est.x_loadings_, float).T @ W) > 1e6:
                    mon.event("null_component")  # a direction on which nothing is left does not determine a score
                    return
            mon.close("training_scores", base["transform"], T, rtol=1e-6 if nm == "snipls" else 1e-8, scale=max(sc["transform"], np.abs(T).max()), msg=lab)
    if nm in ("scaler", "wrapper"):
        e2 = zoo.build(c)
        mon.close("fit_transform", e2.fit_transform(X.copy()), base["transform"], rtol=1e-12, scale=sc["transform"], msg=lab)
        mon.close("fit_transform", base["predict"], base["transform"], rtol=1e-12, scale=sc["transform"], msg=lab)
        mon.close("training_scores", np.asarray(e2.datas_ if nm == "scaler" else e2.dataw_), base["transform"], rtol=1e-12, scale=sc["transform"], msg=lab)


def scale_of(est, c, Xn, X, out):
    """size of the intermediate terms, so that cancellation is not an alarm"""
    big = np.maximum(np.abs(Xn).max(0), np.abs(X).max(0))
    s = {}
    for k, v in out.items():
        b = np.abs(v).max()
        if k == "predict" and hasattr(est, "coef_") and c["name"] != "scaler":
            C = np.abs(np.asarray(est.coef_, float))
            if C.ndim == 2 and C.shape[1] > 1:
                C = C[:, -1]
            C = C.reshape(-1)
            if c["name"] == "sprm":
                big2 = big[est.non_zero_scale_vars_]
            else:
                big2 = big
            b += (C * big2).sum() + np.abs(np.asarray(est.intercept_, float)).max()
        elif k == "predict" and hasattr(est, "ols_obj_"):
            P = np.abs(np.asarray(est.x_loadings_, float))
            par = np.abs(np.asarray(est.ols_obj_.params, float)).reshape(-1)
            b += (big @ P) @ par[1:] + par[0]
        elif k == "transform":
            R = getattr(est, "x_Rweights_", getattr(est, "x_rotations_", None))
            if R is not None:
                sca = np.asarray(est.x_sca_, float).reshape(-1)
                sca = np.where(sca == 0, 1, sca)
                q = (big + np.abs(np.asarray(est.x_loc_, float)).reshape(-1)) / sca
                if c["name"] == "sprm":
                    q = q[est.non_zero_scale_vars_]
                b += (q @ np.abs(np.asarray(R, float))).max()
            elif hasattr(est, "x_loadings_"):
                b += (big @ np.abs(np.asarray(est.x_loadings_, float))).max()
        if c["name"] in ("scaler", "wrapper"):
            sca = np.asarray(est.scale_, float).reshape(-1)
            b += (big / np.where(sca == 0, 1, sca)).max() + (big * np.maximum(sca, 1)).max() * (k == "inverse_transform")
        s[k] = float(b)
    return s
