"""Location and scale estimators equal their definitions."""
import numpy as np
import pandas as pd

import data
import ref
from api import VersatileScaler, pre

RULE = (
    "seeded n x p matrices (Gaussian, correlated, heavy-tailed, tied, integer lattice, contaminated, "
    "badly scaled; p=1..7, n=3..120, optional NaN cells, constant columns, trimming 0..0.45); every case "
    "runs each estimator through the scaler and directly; non-trivial = a matrix/estimator/trimming "
    "combination whose estimate was compared with the reference"
)
ASSUMPTIONS = [
    "the spatial median is compared by objective value and by distance to an independent Weiszfeld solution on data in general position",
    "the tau scale is claimed for single columns; its pooled multi-column value is a known finding",
]
CLAUSES = [
    "mean", "trimmed_mean", "median", "std", "trimmed_std", "mad", "mad_consistency", "l1median_objective",
    "l1median_point", "l1median_start", "kstepLTS", "kstep_half", "tau_scale", "tau_options", "nan_aware",
    "equivariance", "permutation", "robust_half", "offset",
]


def gen(rng, tier):
    reps = 80 if tier == "quick" else 1500
    for _ in range(reps):
        for kind in data.KINDS:
            yield {
                "kind": kind,
                "n": int(rng.choice([3, 4, 5, 8, 13, 20, 31, 50, 120])),
                "p": int(rng.integers(1, 8)),
                "trim": float(rng.choice([0.05, 0.1, 0.2, 0.25, 0.33, 0.45])),
                "const": bool(rng.random() < 0.25),
                "nan": bool(rng.random() < 0.5),
            }


def fit(mon, clause, X, **kw):
    return mon.call(clause, "VersatileScaler(%r).fit" % (kw,), VersatileScaler(**kw).fit, X)


def run(case, mon):
    rng = data.rng_of(case)
    n, p, trim = case["n"], case["p"], case["trim"]
    X = data.matrix(rng, n, p, case["kind"])
    if case["const"]:
        X[:, rng.integers(p)] = rng.choice([0.0, 3.5, -1e4])
    sc = np.abs(X).max() + 1e-300
    t = dict(rtol=1e-9, scale=sc)

    s = fit(mon, "mean", X, center="mean", scale="std")
    mon.close("mean", s.col_loc_, ref.cols(ref.r_mean, X), **t)
    mon.close("mean", s.center_, ref.cols(ref.r_mean, X), **t)
    mon.close("std", s.col_sca_, ref.cols(ref.r_std, X), **t)
    mon.close("std", s.scale_, ref.cols(ref.r_std, X), **t)
    s = fit(mon, "median", X, center="median", scale="mad")
    mon.close("median", s.col_loc_, ref.cols(ref.r_median, X), **t)
    mon.close("mad", s.col_sca_, ref.cols(ref.r_mad, X), **t)
    s = fit(mon, "trimmed_mean", X, center="mean", scale="std", trimming=trim)
    mon.close("trimmed_mean", s.col_loc_, ref.cols(ref.r_mean, X, trim), **t)
    mon.close("trimmed_std", s.col_sca_, ref.cols(ref.r_std, X, trim), **t)
    # direct calls of the documented helpers
    mon.close("mean", mon.call("mean", "mean", pre.mean, X, trimming=0), ref.cols(ref.r_mean, X), **t)
    mon.close("trimmed_mean", mon.call("mean", "mean", pre.mean, X, trimming=trim), ref.cols(ref.r_mean, X, trim), **t)
    mon.close("trimmed_std", mon.call("std", "std", pre.std, X, trimming=trim), ref.cols(ref.r_std, X, trim), **t)
    c = float(rng.uniform(0.3, 2))
    mon.close("mad_consistency", mon.call("mad", "mad", pre.mad, X, c=c), ref.cols(ref.r_mad, X, c), rtol=1e-9, scale=sc / min(c, 1))
    mon.seen("uni", X, trim, c)
    units(mon, rng, X, trim)

    # spatial median
    if p >= 2 and n in (3, 4) and not case["const"] and case["kind"] in ("gauss", "corr", "heavy", "outliers"):
        got = fit(mon, "l1median_objective", X, center="l1median", scale="None").col_loc_
        fb = ref.l1_obj(ref.r_l1median(X), X)
        mon.ok("l1median_objective", ref.l1_obj(np.asarray(got), X) <= fb * (1 + 1e-6), "n=%d: objective %.10g, minimum %.10g" % (n, ref.l1_obj(np.asarray(got), X), fb))
        mon.seen("l1", X)
    if p >= 2 and n >= 5 and not case["const"] and case["kind"] in ("gauss", "corr", "heavy", "outliers"):
        best = ref.r_l1median(X)
        fb = ref.l1_obj(best, X)
        got = fit(mon, "l1median_objective", X, center="l1median", scale="None").col_loc_
        mon.ok("l1median_objective", ref.l1_obj(np.asarray(got), X) <= fb * (1 + 1e-6),
               "objective %.10g, minimum %.10g" % (ref.l1_obj(np.asarray(got), X), fb))
        if n >= 13:
            mon.close("l1median_point", got, best, rtol=5e-2, scale=np.median(np.abs(X - best)) + 1e-12)
        got2 = mon.call("l1median_start", "l1median(x0)", pre.l1median, X, x0=X.mean(0))
        mon.ok("l1median_start", ref.l1_obj(np.asarray(got2), X) <= fb * (1 + 1e-6), "from the mean: %r" % got2)
        k = fit(mon, "kstepLTS", X, center="kstepLTS", scale="None").col_loc_
        mon.close("kstepLTS", k, ref.r_kstep(X, got), **t)
        for mi in (1, 2, 30):
            km = mon.call("kstepLTS", "kstepLTS(maxit)", pre.kstepLTS, X, maxit=mi)
            mon.close("kstepLTS", km, ref.r_kstep(X, got, maxit=mi), **t)
        # a converged k-step estimate is the mean of the half of the cases closest to it
        d = ((X - km) ** 2).sum(1)
        half = X[d <= np.sort(d)[(n + 1) // 2 - 1]].mean(0)
        if np.abs(ref.r_kstep(X, got, 30) - ref.r_kstep(X, got, 31)).max() < 1e-12 * sc:
            mon.close("kstep_half", km, half, **t)
        mon.seen("l1", X)
    if p == 1:
        got = fit(mon, "l1median_objective", X, center="l1median", scale="None").col_loc_
        mon.close("l1median_objective", got, ref.cols(ref.r_median, X), **t)

    # tau scale, column by column
    for j in range(p):
        v = X[:, [j]]
        if ref.r_mad(v[:, 0]) > 1e-9 * sc:
            got = fit(mon, "tau_scale", v, center="median", scale="scaleTau2").col_sca_
            mon.close("tau_scale", got, [ref.r_tau2(v[:, 0])], rtol=1e-9)
            for kw in ({"c1": 0}, {"c1": 3.0, "c2": 2.0}, {"consistency": False}, {"consistency": "finiteSample"}, {"c1": 4.0, "c2": 2.2, "consistency": "finiteSample"}, {"c2": 2.5, "consistency": False}):
                if n <= 2:
                    continue
                got = mon.call("tau_options", "scaleTau2(%r)" % kw, pre.scaleTau2, v, **kw)
                mon.close("tau_options", got, [ref.r_tau2(v[:, 0], **kw)], rtol=1e-9, msg=str(kw))
            mon.seen("tau", v)
    if p > 1 and (ref.cols(ref.r_mad, X) > 1e-9 * sc).all():
        got = np.asarray(fit(mon, "tau_scale", X, center="median", scale="scaleTau2").col_sca_, float)
        want = ref.cols(ref.r_tau2, X)
        if not (got.shape == want.shape and np.allclose(got, want, rtol=1e-7)):
            if np.allclose(got, pooled_tau(X), rtol=1e-7):
                mon.known_finding("tau-pooled", "scaleTau2 of a multi-column matrix pools the columns")
            else:
                mon.ok("tau_scale", False, "multi-column tau scale %s is neither column-wise %s nor pooled %s" % (got, want, pooled_tau(X)))

    # missing cells are left out
    if case["nan"] and n >= 5:
        Xn = X.copy()
        for j in range(p):
            k = int(rng.integers(0, max(1, n // 3)))
            Xn[rng.choice(n, k, replace=False), j] = np.nan
        s = fit(mon, "nan_aware", Xn, center="mean", scale="std")
        mon.close("nan_aware", s.col_loc_, ref.cols(ref.r_mean, Xn), msg="mean", **t)
        mon.close("nan_aware", s.col_sca_, ref.cols(ref.r_std, Xn), msg="std", **t)
        s = fit(mon, "nan_aware", Xn, center="median", scale="mad")
        mon.close("nan_aware", s.col_loc_, ref.cols(ref.r_median, Xn), msg="median", **t)
        mon.close("nan_aware", s.col_sca_, ref.cols(ref.r_mad, Xn), msg="mad", **t)
        for j in range(p):
            v = Xn[:, [j]]
            c = v[~np.isnan(v[:, 0]), 0]
            if len(c) > 3 and ref.r_mad(c) > 1e-9 * sc:
                for kw in ({}, {"c1": 0}, {"consistency": "finiteSample"}):
                    got = mon.call("nan_aware", "scaleTau2(%r) with missing values" % kw, pre.scaleTau2, v.copy(), **kw)
                    mon.close("nan_aware", got, [ref.r_tau2(c, **kw)], rtol=1e-9, msg="tau %s" % kw)
        mon.seen("nan", np.nan_to_num(Xn, nan=9e9))

    # equivariance and permutation invariance
    a = rng.uniform(0.2, 5, p) * rng.choice([-1, 1], p)
    b = rng.uniform(-10, 10, p)
    pr, pc = rng.permutation(n), rng.permutation(p)
    for cen, sca in (("mean", "std"), ("median", "mad")):
        for tr in ((0, trim) if cen == "mean" else (0,)):
            s0 = fit(mon, "equivariance", X, center=cen, scale=sca, trimming=tr)
            s1 = fit(mon, "equivariance", X * a + b, center=cen, scale=sca, trimming=tr)
            e = dict(rtol=1e-8, scale=5 * sc + 10)
            mon.close("equivariance", s1.col_loc_, s0.col_loc_ * a + b, msg=cen, **e)
            mon.close("equivariance", s1.col_sca_, s0.col_sca_ * np.abs(a), msg=sca, **e)
            s2 = fit(mon, "permutation", X[pr][:, pc], center=cen, scale=sca, trimming=tr)
            mon.close("permutation", s2.col_loc_, np.asarray(s0.col_loc_)[pc], msg=cen, **e)
            mon.close("permutation", s2.col_sca_, np.asarray(s0.col_sca_)[pc], msg=sca, **e)

    # fewer than half of the cases cannot carry the robust estimates away
    if n >= 13 and not case["const"] and case["kind"] in ("gauss", "corr"):
        m = (n - 1) // 2 - p
        if m >= 1:
            Xb = X.copy()
            bad = rng.choice(n, m, replace=False)
            Xb[bad] = 1e7 * (1 + rng.random((m, p)))
            good = np.delete(Xb, bad, axis=0)
            lo, hi = good.min(0), good.max(0)
            for cen in ("median", "kstepLTS", "l1median") if p >= 2 else ("median",):
                if cen != "median" and m > n // 4:
                    continue
                L = np.asarray(fit(mon, "robust_half", Xb, center=cen, scale="None").col_loc_, float)
                span = hi - lo
                mon.ok("robust_half", ((L >= lo - 3 * span) & (L <= hi + 3 * span)).all(), "%s moved to %s" % (cen, L))
            S = np.asarray(fit(mon, "robust_half", Xb, center="median", scale="mad").col_sca_)
            mon.ok("robust_half", (S <= 3 * span).all(), "mad exploded to %s" % S)
            mon.seen("rob", Xb)


def pooled_tau(X):
    """What the multi-column code computes today (used only to recognise the known finding)."""
    n = X.shape[0]
    med = np.median(X, axis=0)
    s0 = np.median(np.abs(X - med), axis=0)
    u = np.abs(X - med) / (s0 * 4.5)
    w = np.maximum(1 - u ** 2, 0) ** 2
    mu = (X * w).sum() / w.sum()
    rho = ((X - mu) / s0) ** 2
    rho[np.where(rho > 9)[0]] = 9
    from scipy.stats import norm

    b = 3 * norm.ppf(0.75)
    e = 2 * ((1 - b * b) * norm.cdf(b) - b * norm.pdf(b) + b * b) - 1
    return s0 * np.sqrt(rho.sum() / (n * e))


def units(mon, rng, X, trim):
    """columns in wildly different units"""
    Xu = X * 10.0 ** rng.uniform(-12, 9, X.shape[1])
    cs = np.abs(Xu).max(0) + 1e-300
    for cen, sca, tr in (("mean", "std", 0), ("median", "mad", 0), ("mean", "std", trim)):
        s = fit(mon, "mean", Xu, center=cen, scale=sca, trimming=tr)
        rl, rs = ((ref.r_mean, ref.r_std) if cen == "mean" else (ref.r_median, ref.r_mad))
        a = (tr,) if tr else ()
        mon.cols("trimmed_mean" if tr else cen, s.col_loc_, ref.cols(rl, Xu, *a), cs, msg="units " + cen)
        mon.cols("trimmed_std" if tr else sca, s.col_sca_, ref.cols(rs, Xu, *a), cs, msg="units " + sca)
    # values far from zero, e.g. time stamps, pressures, absolute temperatures: the spread is what it was
    off = np.round(10.0 ** rng.uniform(4, 10, X.shape[1])) * rng.choice([-1, 1], X.shape[1])
    k = np.abs(X).max(0) + 1e-300
    Xo = (np.round(X / k * 1024) * 1 + off) if rng.random() < 0.5 else X / k * 10.0 ** rng.uniform(0, 3) + off
    D = Xo - off  # exact up to the rounding made when the offset was added
    tol = 1e-14 * np.abs(off) * (len(X) + 10) / 1e-8
    for cen, sca, tr in (("mean", "std", 0), ("median", "mad", 0), ("mean", "std", trim)):
        s = fit(mon, "offset", Xo, center=cen, scale=sca, trimming=tr)
        rl, rs = ((ref.r_mean, ref.r_std) if cen == "mean" else (ref.r_median, ref.r_mad))
        a = (tr,) if tr else ()
        mon.cols("offset", np.asarray(s.col_loc_) - off, ref.cols(rl, D, *a), tol, rtol=1e-8, msg="offset " + cen)
        mon.cols("offset", s.col_sca_, ref.cols(rs, D, *a), tol + np.abs(D).max(0), rtol=1e-8, msg="offset " + sca)
    j = int(rng.integers(X.shape[1]))
    if ref.r_mad(X[:, j]) > 1e-9 * np.abs(X[:, j]).max():
        f = 10.0 ** rng.uniform(-8, 8)
        a = fit(mon, "tau_scale", X[:, [j]], center="median", scale="scaleTau2").col_sca_
        b = fit(mon, "tau_scale", X[:, [j]] * f, center="median", scale="scaleTau2").col_sca_
        mon.close("tau_scale", np.asarray(b) / f, a, rtol=1e-7, msg="units tau")
