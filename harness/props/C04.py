"""Wrapping transformation."""
import numpy as np
import pandas as pd

import data
import ref
from api import Wrapper, pre, wrap

RULE = (
    "seeded training and new matrices (all kinds, planted cellwise outliers at every distance, constant columns, "
    "integer and single-row input); non-trivial = a distinct (training, new) pair with at least one wrapped and one kept cell"
)
ASSUMPTIONS = ["tuning constants b=1.5, c=4, q1=1.540793, q2=0.8622731 of Raymaekers and Rousseeuw (2021)"]
CLAUSES = [
    "fitted_values", "wrapped_training", "wrapped_new", "identity_centre", "bounded", "rejected_to_centre", "continuous", "odd",
    "zero_scale", "single_row", "predict_same", "one_pass", "univariate", "cellwise", "own_state",
]


def gen(rng, tier):
    reps = 300 if tier == "quick" else 6000
    for _ in range(reps):
        for kind in data.KINDS:
            yield {"kind": kind, "n": int(rng.choice([4, 7, 15, 40, 101])), "p": int(rng.integers(1, 6)), "const": bool(rng.random() < 0.3)}


def run(case, mon):
    rng = data.rng_of(case)
    n, p = case["n"], case["p"]
    X = data.matrix(rng, n, p, case["kind"])
    if case["const"]:
        X[:, rng.integers(p)] = 3.25
    if rng.random() < 0.4:
        X = X * 10.0 ** rng.uniform(-9, 7, p)
    w = Wrapper()
    mon.call("fitted_values", "fit", w.fit, X.copy())
    m, s = ref.cols(ref.r_median, X), ref.cols(ref.r_mad, X)
    sc = np.abs(X).max() + 1e-300
    cs = np.abs(X).max(0) + 1e-300
    mon.cols("fitted_values", w.center_, m, cs)
    mon.cols("fitted_values", w.scale_, s, cs)
    s1 = np.where(s == 0, 1.0, s)

    def near(Z):  # discontinuity-free function except at |z|=4 where it is 0; |z|=1.5 joins to 1e-6
        a = np.abs((Z - m) / s1)
        return (np.abs(a - 1.5) < 1e-9) | (np.abs(a - 4) < 1e-9)

    def cmp(clause, got, Z, msg=""):
        want = ref.r_wrap(Z, m, s)
        got = np.asarray(got, float)
        if got.shape != want.shape:
            mon.ok(clause, False, "shape %s for %s" % (got.shape, want.shape))
            return
        keep = ~near(Z)
        mon.cols(clause, np.where(keep, got, 0), np.where(keep, want, 0), np.abs(Z).max(0) + np.abs(X).max(0) + 1e-300, rtol=1e-8, msg=msg)

    T = mon.call("wrapped_training", "transform", w.transform, X.copy())
    cmp("wrapped_training", T, X)
    T2 = mon.call("wrapped_training", "fit_transform", Wrapper().fit_transform, X.copy())
    cmp("wrapped_training", T2, X)
    w2 = Wrapper().fit(X[::-1] * 3 + 1)
    T2 = mon.call("wrapped_training", "fit_transform of a wrapper fitted before", w2.fit_transform, X.copy())
    cmp("wrapped_training", T2, X)
    # new data at designed distances from the fitted centre
    k = int(rng.choice([2, 5, 12]))
    z = rng.uniform(-7, 7, (k, p))
    z.flat[: min(k * p, 6)] = np.array([0, 1.2, -1.49, 2.5, -3.9, 5.0])[: min(k * p, 6)]
    N = m + z * s1
    if np.abs((N - m) / s1 - z).max() < 1e-6:
        G = np.asarray(mon.call("wrapped_new", "transform", w.transform, N.copy()), float)
        cmp("wrapped_new", G, N, "new data must be wrapped about the fitted centre and scale")
        mon.seen(X, N)
        zz = (G - m) / s1 if G.shape == N.shape else np.full_like(N, np.nan)
        e = 1e-6 * (np.abs(m) + s1) / s1
        inn = np.abs(z) < 1.5 - 1e-6
        far = np.abs(z) >= 4 + 1e-6
        mon.ok("identity_centre", (np.abs(zz - z) <= e)[inn].all(), "values within 1.5 scales were changed")
        mon.ok("rejected_to_centre", (np.abs(zz) <= e)[far].all(), "values beyond 4 scales are not at the centre")
        mon.ok("bounded", (np.abs(zz) <= 1.5 + 1e-3 + e).all(), "wrapped values beyond 1.5 scales: %s" % np.abs(zz).max())
        mon.ok("odd", (zz * z >= -e).all(), "wrapping changed the side of the centre")
        Gm = np.asarray(w.transform(m - z * s1), float)
        mon.close("odd", Gm - m, -(G - m), rtol=1e-7, scale=sc + np.abs(N).max())
        mon.close("predict_same", mon.call("predict_same", "predict", w.predict, N.copy()), G, rtol=1e-12, scale=sc + np.abs(N).max())
        if p > 1:
            one = mon.call("single_row", "transform", w.transform, N[:1].copy())
            mon.ok("single_row", np.shape(one) == (1, p), "shape %s" % (np.shape(one),))
            mon.close("single_row", one, G[:1], rtol=1e-12, scale=sc + np.abs(N).max())
        # a cell does not influence other cells
        N2 = N.copy()
        i, j = int(rng.integers(k)), int(rng.integers(p))
        N2[i, j] = m[j] + s1[j] * 1e6
        G2 = np.asarray(w.transform(N2), float)
        mask = np.ones((k, p), bool)
        mask[i, j] = False
        mon.close("cellwise", G2[mask], G[mask], rtol=1e-12, scale=sc + np.abs(N).max())
        mon.close("cellwise", G2[i, j], m[j], rtol=1e-9, scale=sc)
        mon.cols("own_state", w.center_, m, cs)
        mon.cols("own_state", w.scale_, s, cs)
    # continuity of the wrapping function at b and monotone to zero at c
    g = np.linspace(-4.5, 4.5, 181)[:, None] * np.ones((1, p))
    G = (np.asarray(w.transform(m + g * s1), float) - m) / s1
    e = 1e-7 * (np.abs(m) + s1) / s1
    mon.ok("continuous", (np.abs(np.diff(G, axis=0)) <= 0.05 * 1.4 + e).all(), "jump of %s" % np.abs(np.diff(G, axis=0)).max())
    # functional forms
    loc, sca = rng.uniform(-2, 2, p), rng.uniform(0.5, 2, p)
    F = mon.call("one_pass", "wrap", wrap, X.copy(), loc, sca)
    a = np.abs((X - loc) / sca)
    keep = (np.abs(a - 1.5) > 1e-9) & (np.abs(a - 4) > 1e-9)
    mon.close("one_pass", np.asarray(F, float)[keep], ref.r_wrap(X, loc, sca)[keep], rtol=1e-8, scale=sc + 2)
    v = X[:, 0].copy()
    u = mon.call("univariate", "wrap_univ(scale=True)", pre.wrap_univ, v.copy(), scale=True)
    kk = ~near(X)[:, 0]
    mon.close("univariate", np.asarray(u, float)[kk], ref.r_wrap(X[:, :1], m[:1], s[:1])[kk, 0], rtol=1e-8, scale=sc)
    zr = rng.uniform(-6, 6, 9)
    mon.close("univariate", mon.call("univariate", "wrap_univ", pre.wrap_univ, zr.copy()), ref.r_psi(zr), rtol=1e-9)
    # constant training column: unit scale
    C = X.copy()
    C[:, 0] = 1.5
    wc = Wrapper().fit(C)
    nn = np.tile(m, (3, 1))
    nn[:, 0] = [1.5, 2.0, 50.0]
    gz = np.asarray(mon.call("zero_scale", "transform", wc.transform, nn.copy()), float)
    mon.ok("zero_scale", np.isfinite(gz).all(), "non-finite wrapped values %s" % gz)
    mon.close("zero_scale", gz[:, 0], [1.5, 2.0, 1.5], rtol=1e-9)
