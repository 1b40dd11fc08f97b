"""Generalized spatial sign pre-processing."""
import numpy as np
import pandas as pd

import data
import ref
from api import GenSpatialSignPreProcessor, VersatileScaler, gen_ss_covmat, gen_ss_pp, gss

FUNS = ["ss", "ball", "shell", "quad", "winsor", "linear_redescending"]
CEN = ["mean", "median", "l1median", "kstepLTS", "None"]
RULE = (
    "seeded matrices with n>p (all kinds, gross outliers, duplicated rows, rows at the centre) for every radial "
    "function and centre, through the estimator, the one-pass function and the covariance; non-trivial = a distinct "
    "(data, centre, radial function) for which at least one factor differs from 1"
)
ASSUMPTIONS = [
    "n > p, as the half-sample index (n+p+1)/2 requires",
    "cases whose distance equals a discontinuity of the radial function to 1e-9 may fall on either side",
]
CLAUSES = [
    "factors", "rows", "estimator", "centred_data", "direction", "bounded", "covmat", "covmat_psd", "custom_fun", "zero_row",
    "one_pass", "orthogonal", "scale_equivariant", "row_permutation",
]


def gen(rng, tier):
    reps = 150 if tier == "quick" else 3000
    for _ in range(reps):
        for fun in FUNS:
            yield {
                "kind": str(rng.choice(["gauss", "corr", "heavy", "outliers", "scaled", "ties"])),
                "fun": fun,
                "center": str(rng.choice(CEN)),
                "p": int(rng.integers(1, 7)),
                "extra": int(rng.choice([2, 5, 12, 40, 90])),
            }


def run(case, mon):
    rng = data.rng_of(case)
    p = case["p"]
    n = p + case["extra"]
    X = data.matrix(rng, n, p, case["kind"])
    fun, cen = case["fun"], case["center"]
    if cen == "kstepLTS" and n < 6:
        cen = "median"
    if rng.random() < 0.3:
        X[-1] = X[0]
    vs = VersatileScaler(center=cen, scale="None")
    Xm = np.asarray(vs.fit_transform(X), float)
    d = np.sqrt((Xm ** 2).sum(1))
    f, amb = ref.r_radial(fun, d, p)
    want = Xm * f[:, None]
    okrows = ~amb
    sc = np.abs(want).max() + 1e-300
    got = mon.call("one_pass", "gen_ss_pp", gen_ss_pp, X.copy(), center=cen, fun=fun)
    got = np.asarray(got, float)
    mon.close("rows", got[okrows], want[okrows], rtol=1e-8, scale=sc, msg="%s/%s" % (cen, fun))
    for i in np.where(amb)[0]:
        mon.ok("rows", np.allclose(got[i], Xm[i], atol=1e-8 * sc) or np.allclose(got[i], 0, atol=1e-8 * sc) or fun == "linear_redescending",
               "ambiguous row %d is neither kept nor dropped" % i)
    if (np.abs(f - 1) > 1e-9).any():
        mon.seen(X, cen, fun)
    pp = GenSpatialSignPreProcessor(center=cen, fun=fun)
    e = np.asarray(mon.call("estimator", "fit_transform", pp.fit_transform, X.copy()), float)
    mon.close("estimator", e, got, rtol=1e-10, scale=sc)
    pp.fit(X[::-1] * 2 + 1)
    e = np.asarray(mon.call("estimator", "fit_transform of a preprocessor fitted before", pp.fit_transform, X.copy()), float)
    mon.close("estimator", e, got, rtol=1e-10, scale=sc)
    mon.close("centred_data", pp.Xm_, Xm, rtol=1e-10, scale=np.abs(Xm).max() + 1e-300)
    g = np.asarray(pp.gss_, float).reshape(-1)
    mon.close("factors", g[okrows], f[okrows], rtol=1e-8)
    t2 = mon.call("estimator", "fit().transform", GenSpatialSignPreProcessor(center=cen, fun=fun).fit(X.copy()).transform, X.copy())
    mon.close("estimator", t2, got, rtol=1e-10, scale=sc)
    # transform of other data: returns the training result (known finding), nothing else
    other = np.asarray(pp.transform(X[: max(2, n // 2)] + 1.0), float)
    if other.shape == got.shape and np.allclose(other, got, rtol=1e-10, atol=1e-10 * sc):
        mon.known_finding("gss-transform-ignores-X", "GenSpatialSignPreProcessor.transform(X) returns the pre-processed training data")
    # every row keeps its direction: got = c * Xm with c in [0, 1] (or 1/d for ss)
    nr = d > 1e-8 * (d.max() + 1e-300)
    c = (got * Xm).sum(1)[nr] / (d[nr] ** 2)
    mon.ok("direction", np.abs(got[nr] - c[:, None] * Xm[nr]).max() <= 1e-8 * (sc + np.abs(Xm).max()), "rows changed direction")
    mon.ok("direction", (c >= -1e-12).all(), "a row was reflected")
    if fun == "ss":
        mon.ok("bounded", np.abs(np.sqrt((got[nr] ** 2).sum(1)) - 1).max() < 1e-8, "spatial signs are not unit vectors")
    else:
        mon.ok("bounded", (c <= 1 + 1e-10).all(), "a row was inflated")
        hm = np.sort(d)[(n + p + 1) // 2 - 1]
        if fun in ("winsor", "quad", "ball"):
            mon.ok("bounded", (np.sqrt((got ** 2).sum(1)) <= hm * (1 + 1e-9)).all(), "rows longer than the half-sample median distance")
    # covariance
    cov = np.asarray(mon.call("covmat", "gen_ss_covmat", gen_ss_covmat, X.copy(), center=cen, fun=fun), float)
    mon.close("covmat", cov, got.T @ got / n, rtol=1e-9)
    cov2 = mon.call("covmat", "gen_ss_covmat(callable)", gen_ss_covmat, X.copy(), center=cen, fun=getattr(gss, fun))
    mon.close("covmat", cov2, cov, rtol=1e-12)
    ev = np.linalg.eigvalsh((cov + cov.T) / 2)
    mon.ok("covmat_psd", np.abs(cov - cov.T).max() <= 1e-10 * np.abs(cov).max() and ev.min() >= -1e-10 * max(ev.max(), 1e-300), "eigenvalues %s" % ev)
    # user supplied radial function
    def half(dd, p_, n_):
        mon.event("user_radial_function_called")
        mon.ok("custom_fun", p_ == p and n_ == n, "called with p=%r n=%r" % (p_, n_))
        return 1 / (1 + dd)

    gh = mon.call("custom_fun", "gen_ss_pp(callable)", gen_ss_pp, X.copy(), center=cen, fun=half)
    mon.close("custom_fun", gh, Xm / (1 + d[:, None]), rtol=1e-9)
    # a case at the centre stays there
    Xz = np.vstack([Xm, np.zeros((1, p))])
    gz = np.asarray(mon.call("zero_row", "gen_ss_pp", gen_ss_pp, Xz, center="None", fun=fun), float)
    mon.ok("zero_row", np.isfinite(gz).all() and np.abs(gz[-1]).max() == 0, "centre case became %s" % gz[-1])
    # rotation / positive scaling / row order commute with the transform
    if not amb.any() and cen in ("mean", "None", "l1median"):
        Q, _ = np.linalg.qr(rng.standard_normal((p, p)))
        if cen != "l1median":
            gq = np.asarray(mon.call("orthogonal", "gen_ss_pp", gen_ss_pp, X @ Q, center=cen, fun=fun), float)
            safe = _safe(fun, d, p)
            mon.close("orthogonal", gq[safe], (got @ Q)[safe], rtol=1e-6, scale=sc)
            s = float(rng.uniform(0.2, 6))
            gs = np.asarray(mon.call("scale_equivariant", "gen_ss_pp", gen_ss_pp, X * s, center=cen, fun=fun), float)
            mon.close("scale_equivariant", gs[safe], (got * (1 if fun == "ss" else s))[safe], rtol=1e-6, scale=sc * max(s, 1))
            pr = rng.permutation(n)
            gp = np.asarray(gen_ss_pp(X[pr], center=cen, fun=fun), float)
            mon.close("row_permutation", gp[safe[pr]], got[pr][safe[pr]], rtol=1e-6, scale=sc)


def _safe(fun, d, p):
    """rows not within 1e-7 of a cut-off of a discontinuous radial function"""
    n = len(d)
    h = (n + p + 1) // 2 - 1
    if fun in ("ss", "winsor", "quad"):
        return d > 1e-7 * d.max()
    q = d ** (2 / 3)
    qm = np.sort(q)[h]
    qd = np.sort(np.abs(q - qm))[h]
    cuts = [qm ** 1.5, max(0, qm - qd) ** 1.5, (qm + qd) ** 1.5, (qm + 1.4826 * qd) ** 1.5]
    if fun == "linear_redescending":
        if cuts[3] - cuts[0] < 1e-3 * cuts[0]:
            return np.zeros(n, bool)
        return np.ones(n, bool)
    ok = np.ones(n, bool)
    for c in cuts:
        ok &= np.abs(d - c) > 1e-7 * max(c, 1e-300)
    return ok
