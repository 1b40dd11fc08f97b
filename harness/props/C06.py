"""Energy statistics equal their definitions."""
import numpy as np

import data
import ref
from api import dicomo, dutil

RULE = (
    "seeded samples x (n x 1..3) and y (n,), n=6..60 (Gaussian, heavy, tied, contaminated, scaled), over variance/covariance/"
    "correlation/std/continuum/mdd/mdc, biased and unbiased, fast and naive, trimmed and median variants; non-trivial = a distinct "
    "(data, statistic, settings) compared with the definition computed pair by pair"
)
ASSUMPTIONS = [
    "martingale difference divergence is claimed for univariate responses, its correlation for univariate x (what the code accepts)",
    "higher order distance moments are compared in absolute value",
    "the unbiased divergence is compared where the squared estimate is positive (its root is undefined otherwise)",
]
CLAUSES = [
    "distance_variance", "distance_covariance", "distance_correlation", "distance_std", "distance_continuum", "fast_equals_naive",
    "unbiased", "trimmed", "median_variant", "trimmed_unbiased", "mdd_trimmed", "mdd", "mdc", "mdd_matrix", "higher_order", "nonnegative", "unit_range",
    "linear_relation", "invariance", "zero_for_constant", "vector_shapes", "metric",
]


def gen(rng, tier):
    reps = 120 if tier == "quick" else 2500
    for _ in range(reps):
        for kind in ("gauss", "heavy", "ties", "outliers", "scaled"):
            yield {"kind": kind, "n": int(rng.choice([6, 8, 13, 25, 60])), "p": int(rng.choice([1, 1, 2, 3])), "trim": float(rng.choice([0.05, 0.1, 0.2, 0.01, 0.004]))}


def run(case, mon):
    rng = data.rng_of(case)
    n, p, t = case["n"], case["p"], case["trim"]
    X = data.matrix(rng, n, p, case["kind"])
    y = np.tanh((X - X.mean(0)) / (X.std(0) + 1e-9)) @ rng.standard_normal(p) + rng.uniform(0, 1) * rng.standard_normal(n)
    if np.ptp(X[:, 0]) == 0 or np.ptp(y) == 0:
        return
    Y = y[:, None]
    Yv = y if rng.random() < 0.5 else Y
    DX, DY = ref.dist(X), ref.dist(y)
    mx, my = DX.max(), DY.max()

    def st(clause, mode, x=X, center="mean", **kw):
        o = dicomo(est="distance", mode=mode, center=center)
        return mon.call(clause, "dicomo(distance, %s, %r)" % (mode, {k: v for k, v in kw.items() if k != "y"}), o.fit, x, **kw)

    for bc in (False, True):
        cl = "unbiased" if bc else None
        dvx, dvy, dc = ref.dcov(X, X, bc), ref.dcov(y, y, bc), ref.dcov(X, y, bc)
        # the root of a difference of large terms: compare squares
        def sq(clause, g, want2, scale, msg=""):
            mon.close(clause, np.asarray(g) ** 2, want2, rtol=1e-7, scale=scale, msg=msg)
            if cl:
                mon.close(cl, np.asarray(g) ** 2, want2, rtol=1e-7, scale=scale, msg=clause)

        vals = {}
        for mode_ in ("fast", "naive"):
            kw = dict(biascorr=bc, calcmode=mode_)
            v = st("distance_variance", "var", **kw)
            c = st("distance_covariance", "cov", y=Yv, **kw)
            sq("distance_variance", v, dvx ** 2, mx * mx, mode_)
            sq("distance_covariance", c, dc ** 2, mx * my, mode_)
            s = st("distance_std", "std", **kw)
            mon.close("distance_std", np.asarray(s) ** 4, dvx ** 2, rtol=1e-7, scale=mx * mx, msg=mode_)
            vals[mode_] = [v, c, s]
            if dvx > 1e-4 * mx and dvy > 1e-4 * my:
                r = st("distance_correlation", "corr", y=Yv, **kw)
                sq("distance_correlation", r, dc ** 2 / (dvx * dvy), mx * my / (dvx * dvy), mode_)
                vals[mode_].append(r)
                al = float(rng.choice([0.5, 1, 2]))
                k = st("distance_continuum", "continuum", alpha=al, y=Yv, **kw)
                mon.close("distance_continuum", k, dc ** 2 * np.sqrt(dvx) ** (al - 1), rtol=1e-6, scale=mx * my * np.sqrt(dvx) ** (al - 1), msg=mode_)
                if not bc:
                    mon.ok("unit_range", -1e-6 <= r <= 1 + 1e-6, "distance correlation %r" % r)
            if not bc:
                mon.ok("nonnegative", v >= 0 and c >= 0, "negative distance statistic")
        mon.close("fast_equals_naive", np.square(vals["fast"]), np.square(vals["naive"]), rtol=1e-6,
                  scale=max(mx * mx, mx * my, mx, 1, mx * my / max(dvx * dvy, 1e-12) if len(vals["fast"]) > 3 else 1))
        mon.seen(X, y, bc)
        # vector shapes of y agree
        a = st("vector_shapes", "cov", y=y.copy(), biascorr=bc, calcmode="naive")
        b = st("vector_shapes", "cov", y=Y.copy(), biascorr=bc, calcmode="naive")
        mon.close("vector_shapes", a, b, rtol=1e-12)
        a = st("vector_shapes", "cov", y=y.copy(), biascorr=bc)
        b = st("vector_shapes", "cov", y=Y.copy(), biascorr=bc)
        mon.close("vector_shapes", np.square(a), np.square(b), rtol=1e-9, scale=mx * my)
        # martingale difference divergence
        m2 = ref.mdd2(X, y, bc)
        sc = mx * my * my
        if m2 > 1e-6 * sc:
            mon.close("mdd", st("mdd", "mdd", y=Yv, biascorr=bc) ** 2, m2, rtol=1e-7, scale=sc)
            x1 = X[:, :1]
            q = [ref.mdd2(x1, y, bc), ref.mdd2(x1, x1, bc), ref.mdd2(y, y, bc)]
            d1 = ref.dist(x1).max()
            if q[0] > 1e-6 * d1 * my ** 2 and q[1] > 1e-6 * d1 ** 3 and q[2] > 1e-6 * my ** 3:
                g = st("mdc", "mdc", x=x1, y=Yv, biascorr=bc)
                mon.close("mdc", g, np.sqrt(q[0]) / np.sqrt(q[1] * q[2]), rtol=1e-5)
    # trimmed and median centring
    if n >= 8:
        for how, tt in (("mean", t), ("median", 0.0)):
            clause = "trimmed" if how == "mean" else "median_variant"
            kw = dict(center=how, trimming=tt)
            v = st(clause, "var", **kw)
            c = st(clause, "cov", y=Yv, **kw)
            e = 2 if how == "mean" else 1
            mon.close(clause, np.asarray(v) ** e, ref.dcov(X, X, t=tt, how=how) ** e, rtol=1e-7, scale=mx * mx)
            mon.close(clause, np.asarray(c) ** e, ref.dcov(X, y, t=tt, how=how) ** e, rtol=1e-7, scale=mx * my)
    # trimmed and unbiased at once, the derived statistics, and the trimmed divergence
    if n >= 8:
        for bc in (False, True):
            kw = dict(trimming=t, biascorr=bc)
            clause = "trimmed_unbiased" if bc else "trimmed"
            dvx, dvy, dc = ref.dcov(X, X, bc, t), ref.dcov(y, y, bc, t), ref.dcov(X, y, bc, t)
            v, c = st(clause, "var", **kw), st(clause, "cov", y=Yv, **kw)
            mon.close(clause, np.asarray(v) ** 2, dvx ** 2, rtol=1e-7, scale=mx * mx, msg="variance")
            mon.close(clause, np.asarray(c) ** 2, dc ** 2, rtol=1e-7, scale=mx * my, msg="covariance")
            mon.close(clause, np.asarray(st(clause, "cov", y=X.copy(), **kw)) ** 2, dvx ** 2, rtol=1e-7, scale=mx * mx, msg="covariance of X with itself")
            if dvx > 1e-3 * mx and dvy > 1e-3 * my:
                mon.close(clause, np.asarray(st(clause, "corr", y=Yv, **kw)) ** 2, dc ** 2 / (dvx * dvy), rtol=1e-7, scale=mx * my / (dvx * dvy), msg="correlation")
                al = float(rng.choice([0.5, 1, 2]))
                k = st(clause, "continuum", alpha=al, y=Yv, **kw)
                mon.close(clause, k, dc ** 2 * np.sqrt(dvx) ** (al - 1), rtol=1e-6, scale=mx * my * np.sqrt(dvx) ** (al - 1), msg="continuum")
            m2 = ref.mdd2_trim(X, y, t, bc)
            if m2 > 1e-6 * mx * my * my:
                mon.close("mdd_trimmed", st("mdd_trimmed", "mdd", y=Yv, **kw) ** 2, m2, rtol=1e-7, scale=mx * my * my, msg="biascorr=%s" % bc)
            x1 = X[:, :1]
            d1 = ref.dist(x1).max()
            q = [ref.mdd2_trim(x1, y, t, bc), ref.mdd2_trim(x1, x1, t, bc), ref.mdd2_trim(y, y, t, bc)]
            if q[0] > 1e-4 * d1 * my ** 2 and q[1] > 1e-4 * d1 ** 3 and q[2] > 1e-4 * my ** 3:
                mon.close("mdd_trimmed", st("mdd_trimmed", "mdc", x=x1, y=Yv, **kw), np.sqrt(q[0]) / np.sqrt(q[1] * q[2]), rtol=1e-5, msg="mdc biascorr=%s" % bc)
    # other metrics, by every route
    for met in ("cityblock", "chebyshev"):
        with ref.metric(met):
            mA = ref.dist(X).max()
            for bc, tt in ((False, 0.0), (True, 0.0), (False, t), (True, t)):
                if tt and n < 8:
                    continue
                kw = dict(dmetric=met, biascorr=bc, trimming=tt)
                if not tt and rng.random() < 0.5:
                    kw["calcmode"] = str(rng.choice(["fast", "naive"]))
                dvx, dvy, dc = ref.dcov(X, X, bc, tt), ref.dcov(y, y, bc, tt), ref.dcov(X, y, bc, tt)
                mon.close("metric", np.asarray(st("metric", "cov", y=Yv, **kw)) ** 2, dc ** 2, rtol=1e-7, scale=mA * my, msg="covariance %r" % {k: v for k, v in kw.items()})
                mon.close("metric", np.asarray(st("metric", "var", **kw)) ** 2, dvx ** 2, rtol=1e-7, scale=mA * mA, msg="variance")
                if dvx > 1e-3 * mA and dvy > 1e-3 * my:
                    mon.close("metric", np.asarray(st("metric", "corr", y=Yv, **kw)) ** 2, dc ** 2 / (dvx * dvy), rtol=1e-7, scale=mA * my / (dvx * dvy), msg="correlation")
                kw.pop("calcmode", None)
                m2 = ref.mdd2_trim(X, y, tt, bc) if tt else ref.mdd2(X, y, bc)
                if m2 > 1e-6 * mA * my * my:
                    mon.close("metric", st("metric", "mdd", y=Yv, **kw) ** 2, m2, rtol=1e-7, scale=mA * my * my, msg="divergence")
                g = mon.call("metric", "difference_divergence", dutil.difference_divergence, X.copy(), y.copy(), **kw)
                mon.close("metric", g, m2, rtol=1e-7, scale=mA * my * my, msg="difference_divergence")
    # higher order
    A, B = ref.dcenter(DX), ref.dcenter(DY)
    for k in (3, 4):
        for o in range(1, k):
            g = st("higher_order", "com", y=Yv, order=k, option=o)
            want = abs(np.mean(A ** (k - o) * B ** o))
            mon.close("higher_order", abs(g) ** k, want, rtol=1e-7, scale=np.abs(A).max() ** (k - o) * np.abs(B).max() ** o, msg="order %d option %d" % (k, o))
    # structure: linear relations, invariance, constants
    a = float(rng.uniform(0.3, 3) * rng.choice([-1, 1]))
    x1 = X[:, :1]
    r = st("linear_relation", "corr", x=x1, y=(a * x1 + 2))
    mon.close("linear_relation", r, 1.0, rtol=1e-4)
    Q, _ = np.linalg.qr(rng.standard_normal((p, p)))
    g0 = st("invariance", "cov", y=Yv)
    g1 = st("invariance", "cov", x=np.ascontiguousarray(X @ Q + 3.0), y=Y[:, 0] - 5.0)
    mon.close("invariance", g1 ** 2, g0 ** 2, rtol=1e-6, scale=mx * my)
    pr = rng.permutation(n)
    g2 = st("invariance", "cov", x=X[pr], y=Y[pr])
    mon.close("invariance", g2 ** 2, g0 ** 2, rtol=1e-7, scale=mx * my)
    g3 = st("invariance", "cov", x=Y, y=X)
    mon.close("invariance", g3 ** 2, g0 ** 2, rtol=1e-7, scale=mx * my)
    g4 = st("invariance", "cov", x=X * abs(a), y=Y)
    mon.close("invariance", g4 ** 2, abs(a) * g0 ** 2, rtol=1e-6, scale=mx * my * abs(a))
    z = st("zero_for_constant", "cov", y=np.full(n, 2.0), calcmode="naive")
    mon.close("zero_for_constant", z, 0.0, rtol=0, atol=1e-6 * np.sqrt(mx))
    # divergence matrix
    q = int(rng.integers(1, 4))
    M = rng.standard_normal((n, q)) + X[:, :1] ** 2 / (1 + mx ** 2)
    G = np.asarray(mon.call("mdd_matrix", "MDDM", dutil.MDDM, X, M), float)
    W = ref.mddm(X, M)
    mon.close("mdd_matrix", G, W, rtol=1e-8, scale=mx * np.abs(M).max() ** 2)
    mon.ok("mdd_matrix", np.linalg.eigvalsh((G + G.T) / 2).min() >= -1e-8 * np.abs(G).max() and np.abs(G - G.T).max() <= 1e-8 * np.abs(G).max(), "not symmetric positive semidefinite")
