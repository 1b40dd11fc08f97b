"""Scalers: standardise with the fitted location and scale, and back."""
import numpy as np
import pandas as pd

import data
import ref
from api import VersatileScaler, versatile_scale

RULE = (
    "seeded training and new matrices (all data kinds, p=1..6, constant columns, NaN cells, single new rows, "
    "containers) for every centre/scale pair by name, by function and 'None'; non-trivial = a distinct "
    "(training data, centre, scale, trimming, new data) whose transform was compared cell by cell"
)
ASSUMPTIONS = ["location and scale vectors reported by the fitted scaler are themselves decided by C01"]
CLAUSES = [
    "transform", "zero_scale", "new_data", "single_row", "round_trip", "round_trip_new", "history", "predict_same",
    "fit_transform_same", "one_pass_same", "one_dim", "none_options", "callables", "refit", "trim_reject", "unfitted",
    "standardised",
]
CEN = ["mean", "median", "l1median", "kstepLTS", "None"]
SCA = ["std", "mad", "scaleTau2", "None"]


def gen(rng, tier):
    reps = 200 if tier == "quick" else 4000
    for _ in range(reps):
        for kind in data.KINDS:
            yield {
                "kind": kind,
                "n": int(rng.choice([5, 8, 13, 30, 60])),
                "p": int(rng.integers(1, 7)),
                "const": bool(rng.random() < 0.5),
                "trim": float(rng.choice([0, 0, 0.1, 0.3])),
            }


def manual(X, m, s):
    s = np.where(np.asarray(s, float) == 0, 1.0, np.asarray(s, float))
    return (X - np.asarray(m, float)) / s


def run(case, mon):
    rng = data.rng_of(case)
    n, p, trim = case["n"], case["p"], case["trim"]
    X = data.matrix(rng, n, p, case["kind"])
    zero = None
    if case["const"]:
        zero = int(rng.integers(p))
        X[:, zero] = rng.choice([0.0, 2.5, -30.0])
    k = int(rng.choice([2, 3, 7, 20]))
    unit = 10.0 ** rng.uniform(-9, 7, p) if rng.random() < 0.4 else np.ones(p)
    X = X * unit
    Xn = data.matrix(rng, k, p, str(rng.choice(data.KINDS))) * 3 * unit + unit
    cs = np.abs(X).max(0) + np.abs(Xn).max(0)  # per column
    sc = np.abs(X).max() + np.abs(Xn).max()
    cen = str(rng.choice(CEN))
    sca = str(rng.choice(SCA))
    if sca == "scaleTau2" and (p > 1 or (ref.cols(ref.r_mad, X) == 0).any()):
        sca = "mad"
    if cen == "kstepLTS" and n < 5:
        cen = "median"
    for cen, sca in ((cen, sca), ("mean", "std"), ("median", "mad"), ("median", "std")):
        tr = trim if sca in ("std", "None") and cen in ("mean", "median") else 0
        vs = VersatileScaler(center=cen, scale=sca, trimming=tr)
        mon.call("transform", "fit", vs.fit, X)
        m, s = np.array(vs.col_loc_, float), np.array(vs.col_sca_, float)
        tol = dict(rtol=1e-9, scales=(cs + 1e-300) / np.where(s == 0, 1, s))
        Xs = mon.call("transform", "transform", vs.transform, X)
        mon.cols("transform", Xs, manual(X, m, s), msg="%s/%s" % (cen, sca), **tol)
        mon.seen(cen, sca, tr, X, Xn)
        if zero is not None:
            mon.ok("zero_scale", np.isfinite(np.asarray(Xs, float)[:, zero]).all(), "constant column became %s" % Xs[:, zero])
            if sca in ("std", "mad") and s[zero] == 0:
                mon.close("zero_scale", np.asarray(Xs)[:, zero], X[:, zero] - m[zero], rtol=1e-9, scale=cs[zero])
        # centred/unit scale after standardisation
        if sca == "std" and tr == 0 and cen == "mean":
            live = s > 1e-9 * cs
            mon.close("standardised", ref.cols(ref.r_std, np.asarray(Xs))[live], np.ones(live.sum()), rtol=1e-6)
            mon.close("standardised", ref.cols(ref.r_mean, np.asarray(Xs))[live], np.zeros(live.sum()), rtol=0, atol=1e-6)
        if cen == "median" and sca == "mad":
            live = s > 1e-9 * cs
            mon.close("standardised", ref.cols(ref.r_mad, np.asarray(Xs))[live], np.ones(live.sum()), rtol=1e-6)
            mon.close("standardised", ref.cols(ref.r_median, np.asarray(Xs))[live], np.zeros(live.sum()), rtol=0, atol=1e-6)
        # new data use the fitted values
        Xns = mon.call("new_data", "transform", vs.transform, Xn)
        mon.cols("new_data", Xns, manual(Xn, m, s), msg="%s/%s" % (cen, sca), **tol)
        mon.close("new_data", vs.col_loc_, m, rtol=0, msg="transform changed the fitted location")
        mon.close("new_data", vs.col_sca_, s, rtol=0, msg="transform changed the fitted scale")
        mon.cols("predict_same", mon.call("predict_same", "predict", vs.predict, Xn), Xns, **tol)
        if p > 1:
            one = mon.call("single_row", "transform", vs.transform, Xn[:1])
            mon.cols("single_row", one, np.asarray(Xns)[:1], **tol)
            mon.ok("single_row", np.shape(one) == (1, p), "shape %s" % (np.shape(one),))
            one = mon.call("single_row", "predict", vs.predict, Xn[:1])
            mon.cols("single_row", one, np.asarray(Xns)[:1], **tol)
        # and back
        back = mon.call("round_trip_new", "inverse_transform", vs.inverse_transform, Xns)
        mon.cols("round_trip_new", back, Xn, cs + 1e-300, rtol=1e-8)
        vs.transform(X)
        back = mon.call("round_trip", "inverse_transform", vs.inverse_transform)
        mon.cols("round_trip", back, X, cs + 1e-300, rtol=1e-8)
        back = mon.call("round_trip", "inverse_transform", vs.inverse_transform, Xs)
        mon.cols("round_trip", back, X, cs + 1e-300, rtol=1e-8)
        if p > 1:
            back = mon.call("round_trip_new", "inverse_transform", vs.inverse_transform, np.asarray(Xns)[:1])
            mon.cols("round_trip_new", back, Xn[:1], cs + 1e-300, rtol=1e-8)
        # the stored scaled data are those of the last transform, whatever is predicted or transformed back since
        vs.predict(Xn)
        vs.inverse_transform(Xns)
        mon.cols("history", vs.datas_, Xs, msg="stored scaled data", **tol)
        mon.cols("history", vs.datans_, Xns, msg="stored scaled new data", **tol)
        back = mon.call("history", "inverse_transform", vs.inverse_transform)
        mon.cols("history", back, X, cs + 1e-300, rtol=1e-8)
        # other routes
        ft = mon.call("fit_transform_same", "fit_transform", VersatileScaler(center=cen, scale=sca, trimming=tr).fit_transform, X)
        mon.cols("fit_transform_same", ft, Xs, **tol)
        op = mon.call("one_pass_same", "versatile_scale", versatile_scale, X, center=cen, scale=sca, trimming=tr)
        mon.cols("one_pass_same", op, Xs, **tol)
        # refit forgets
        other = (data.matrix(rng, n + 3, p, "gauss") * 7 + 5) * unit
        vs.fit(other)
        vs.transform(other)
        mon.call("refit", "refit", vs.fit, X)
        mon.cols("refit", vs.transform(Xn), Xns, **tol)
        vs.fit(other)
        ft = mon.call("refit", "fit_transform of a scaler fitted before", vs.fit_transform, X)
        mon.cols("refit", ft, Xs, msg="fit_transform", **tol)
        mon.cols("refit", vs.transform(Xn), Xns, msg="after fit_transform", **tol)

    # single column given as a vector
    if p == 1:
        v1 = VersatileScaler(center="median", scale="mad")
        a = mon.call("one_dim", "fit_transform", v1.fit_transform, X[:, 0].copy())
        b = VersatileScaler(center="median", scale="mad").fit_transform(X)
        mon.close("one_dim", a, b, rtol=1e-12)
        a = mon.call("one_dim", "fit_transform", v1.fit_transform, pd.Series(X[:, 0].copy()))
        mon.close("one_dim", a, b, rtol=1e-12)
    # 'None'
    vn = VersatileScaler(center="None", scale="None")
    mon.close("none_options", mon.call("none_options", "fit_transform", vn.fit_transform, X), X, rtol=0)
    vn = VersatileScaler(center="None", scale="std").fit(X)
    mon.close("none_options", vn.col_loc_, np.zeros(p), rtol=0)
    # user functions
    def q1(Z, **kw):
        return np.quantile(Z, 0.25, axis=0)

    def rng_(Z, **kw):
        return Z.max(0) - Z.min(0)

    vc = VersatileScaler(center=q1, scale=rng_)
    got = mon.call("callables", "fit_transform", vc.fit_transform, X)
    mon.cols("callables", got, manual(X, q1(X), rng_(X)), (cs + 1e-300) / np.where(rng_(X) == 0, 1, rng_(X)))
    for bad in (-0.1, 1.0, 1.5):
        mon.rejects("trim_reject", "trimming=%r" % bad, VersatileScaler(center="mean", scale="std", trimming=bad).fit, X)
    mon.rejects("unfitted", "transform before fit", VersatileScaler().transform, X)
    mon.rejects("unfitted", "inverse_transform before fit", VersatileScaler().inverse_transform, X)
