"""Product-moment statistics of the moment class equal their textbook definitions."""
import numpy as np
import scipy.stats as sps

import data
import ref
from api import dicomo

RULE = (
    "seeded vector pairs (n=6..150; Gaussian, skewed, heavy, tied, contaminated, scaled by 1e-3..1e3) over every product-moment "
    "mode, order 2..4, co-moment option, trimming 0..0.4, bias correction and centre; non-trivial = a distinct (data, settings) "
    "whose statistic was compared with the definition"
)
ASSUMPTIONS = [
    "bias-corrected kurtosis/skewness are additionally compared with scipy.stats (bias=False)",
    "non-corrected kurtosis is the Pearson value, as the example notebook documents",
    "bias-corrected standardised co-kurtosis and median-centred correlation/continuum are known findings",
]
CLAUSES = [
    "variance", "std", "moment", "skewness", "kurtosis", "covariance", "comoment", "coskewness", "third_comoment", "cokurtosis",
    "correlation", "continuum", "median_centre", "symmetry", "shift_scale", "corr_range", "self_consistent", "stored_results",
    "second_vector", "scipy",
]


def gen(rng, tier):
    reps = 60 if tier == "quick" else 2000
    for _ in range(reps):
        for kind in ("gauss", "heavy", "ties", "outliers", "scaled", "skew"):
            yield {
                "kind": kind,
                "n": int(rng.choice([6, 7, 10, 21, 50, 150])),
                "trim": float(rng.choice([0, 0, 0, 0.1, 0.2, 0.4, 0.01, 0.02, 0.3])),
            }


def run(case, mon):
    rng = data.rng_of(case)
    n, t = case["n"], case["trim"]
    XY = data.matrix(rng, n, 2, case["kind"])
    x = XY[:, 0]
    y = rng.uniform(-1.5, 1.5) * x + (np.std(x) + 0.1) * XY[:, 1] / (np.std(XY[:, 1]) + 1e-9) + rng.uniform(-2, 2)
    if np.ptp(x) == 0 or np.ptp(y) == 0:
        return
    if t and (round(n * (1 - t)) < 5):
        t = 0.0
    sx, sy = np.abs(x - ref.tmean(x, t)).max(), np.abs(y - ref.tmean(y, t)).max()
    shp = rng.integers(3)
    X = x.copy() if shp == 0 else x[:, None].copy()
    Y = y.copy() if shp == 1 else y[:, None].copy()
    ax = 1e-9 * np.abs(x).max()

    def st(clause, mode, center="mean", **kw):
        o = dicomo(est="arithmetic", mode=mode, center=center)
        v = mon.call(clause, "dicomo(%s, %r)" % (mode, sorted(k for k in kw if k != "y")), o.fit, X, **kw)
        mon.close("stored_results", o.moment_, v, rtol=0)
        return v

    for bc in (False, True):
        m = round(n * (1 - t))
        kw = dict(trimming=t, biascorr=bc)
        f2 = ref.fs_factor(2, n, t) if bc else 1.0
        vx, vy = ref.central(x, x, 1, 1, t) * f2, ref.central(y, y, 1, 1, t) * f2
        cxy = ref.central(x, y, 1, 1, t) * f2
        tol2 = dict(rtol=1e-8, scale=sx * sx + sx * ax)
        got = st("variance", "var", **kw)
        mon.close("variance", got, vx, **tol2)
        mon.seen(x, y, t, bc)
        if vx <= 1e-12 * sx * sx or vy <= 1e-12 * sy * sy:
            continue
        mon.close("std", st("std", "std", **kw), np.sqrt(vx), rtol=1e-8, scale=sx)
        for k in (2, 3, 4):
            fk = ref.fs_factor(k, n, t) if bc else 1.0
            mon.close("moment", st("moment", "mom", order=k, **kw), ref.central(x, x, k, 0, t) * fk, rtol=1e-8, scale=sx ** k * fk, msg="order %d bc %s" % (k, bc))
            for o in range(1, k):
                a, b = (k - o, o) if k > 2 else (1, 1)
                g = st("comoment", "com", order=k, option=o, y=Y, **kw)
                mon.close("comoment", g, ref.central(x, y, a, b, t) * fk, rtol=1e-8, scale=sx ** a * sy ** b * fk, msg="order %d option %d bc %s" % (k, o, bc))
        m2 = ref.central(x, x, 1, 1, t)
        g1 = ref.central(x, x, 3, 0, t) / m2 ** 1.5
        g2 = ref.central(x, x, 4, 0, t) / m2 ** 2
        if bc:
            g1 = g1 * np.sqrt(m * (m - 1)) / (m - 2)
            g2 = ((m * m - 1) * g2 - 3 * (m - 1) ** 2) / ((m - 2) * (m - 3))
        ss = (sx / np.sqrt(m2)) ** 4
        gs = st("skewness", "skew", **kw)
        gk = st("kurtosis", "kurt", **kw)
        mon.close("skewness", gs, g1, rtol=1e-8, scale=1 + ss)
        mon.close("kurtosis", gk, g2, rtol=1e-8, scale=1 + 3 * ss)
        if bc:
            mon.close("kurtosis", st("kurtosis", "kurt", Fisher=False, **kw), g2 + 3, rtol=1e-8, scale=1 + 3 * ss)
        if t == 0:
            mon.close("scipy", gs, sps.skew(x, bias=not bc), rtol=1e-7, scale=1 + ss)
            mon.close("scipy", gk, sps.kurtosis(x, bias=not bc, fisher=bc), rtol=1e-7, scale=1 + 3 * ss)
            mon.close("scipy", got, np.var(x, ddof=int(bc)), rtol=1e-8, scale=sx * sx)
        c2 = dict(rtol=1e-8, scale=sx * sy)
        gc = st("covariance", "cov", y=Y, **kw)
        mon.close("covariance", gc, cxy, **c2)
        for o in (1, 2):
            f3 = ref.fs_factor(3, n, t) if bc else 1.0
            raw = ref.central(x, y, 3 - o, o, t) * f3
            mon.close("third_comoment", st("third_comoment", "M3", option=o, y=Y, **kw), raw, rtol=1e-8, scale=sx ** (3 - o) * sy ** o * f3)
            mon.close("coskewness", st("coskewness", "cos", option=o, standardized=False, y=Y, **kw), raw, rtol=1e-8, scale=sx ** (3 - o) * sy ** o * f3)
            den = vx ** ((3 - o) / 2) * vy ** (o / 2)
            mon.close("coskewness", st("coskewness", "cos", option=o, y=Y, **kw), raw / den, rtol=1e-8, scale=sx ** (3 - o) * sy ** o * f3 / den)
        for o in (1, 2, 3):
            f4 = ref.fs_factor(4, n, t) if bc else 1.0
            raw = ref.central(x, y, 4 - o, o, t) * f4
            s4 = sx ** (4 - o) * sy ** o * f4
            mon.close("cokurtosis", st("cokurtosis", "cok", option=o, standardized=False, y=Y, **kw), raw, rtol=1e-8, scale=s4)
            den = vx ** ((4 - o) / 2) * vy ** (o / 2)
            g = st("cokurtosis", "cok", option=o, y=Y, **kw)
            if not bc:
                mon.close("cokurtosis", g, raw / den, rtol=1e-8, scale=s4 / den)
            else:
                sub = 3 * (m - 1) ** 2 / ((m - 2) * (m - 3))
                good = raw / den * (1 - 1 / m ** 2) - sub
                now = (raw * (1 - 1 / m ** 2) - sub) / den
                lim = 1e-8 * (s4 / den + sub / den + sub)
                if abs(g - good) > lim and abs(g - now) <= lim:
                    mon.known_finding("cok-biascorr", "bias-corrected co-kurtosis subtracts its correction before standardising")
                else:
                    mon.close("cokurtosis", g, good, rtol=0, atol=lim)
        r = cxy / np.sqrt(vx * vy)
        gr = st("correlation", "corr", y=Y, **kw)
        mon.close("correlation", gr, r, rtol=1e-8, scale=sx * sy / np.sqrt(vx * vy))
        if t == 0:
            mon.ok("corr_range", abs(gr) <= 1 + 1e-9, "correlation %r" % gr)
            mon.close("scipy", gr, np.corrcoef(x, y)[0, 1], rtol=1e-7, scale=1)
        al = float(rng.choice([0.25, 0.5, 1, 1.7, 3]))
        want = cxy ** 2 * np.sqrt(vx) ** (al - 1)
        mon.close("continuum", st("continuum", "continuum", alpha=al, y=Y, **kw), want, rtol=1e-7, scale=(sx * sy) ** 2 * np.sqrt(vx) ** (al - 1))
        # symmetry, self-consistency, shift and scale laws
        o = dicomo(est="arithmetic", mode="cov")
        mon.close("symmetry", mon.call("symmetry", "cov(y,x)", o.fit, Y, y=X, **kw), gc, **c2)
        o = dicomo(est="arithmetic", mode="corr")
        mon.close("symmetry", mon.call("symmetry", "corr(y,x)", o.fit, Y, y=X, **kw), gr, rtol=1e-7, scale=sx * sy / np.sqrt(vx * vy))
        mon.close("self_consistent", dicomo(mode="cov").fit(X, y=X.copy(), **kw), got, **tol2)
        mon.close("self_consistent", dicomo(mode="corr").fit(X, y=X.copy(), **kw), 1.0, rtol=1e-8)
        a, b = float(rng.uniform(0.3, 4) * rng.choice([-1, 1])), float(rng.uniform(-5, 5))
        mon.close("shift_scale", dicomo(mode="var").fit(a * X + b, **kw), a * a * got, rtol=1e-6, scale=a * a * sx * (sx + np.abs(x).max() * 1e-3))
        if t == 0:
            mon.close("shift_scale", dicomo(mode="corr").fit(a * X + b, y=Y, **kw), np.sign(a) * gr, rtol=1e-6, scale=1)
            mon.close("shift_scale", dicomo(mode="skew").fit(a * X + b, **kw), np.sign(a) * gs, rtol=1e-6, scale=1 + ss)

    # median-centred alternatives
    mx, my = ref.r_median(x), ref.r_median(y)
    mon.close("median_centre", st("median_centre", "var", center="median"), 1.4826 * ref.r_median(np.abs(x - mx)), rtol=1e-9, scale=sx)
    for mode in ("cov", "com"):
        mon.close("self_consistent", dicomo(mode=mode, center="median").fit(X, y=X.copy()), dicomo(mode="var", center="median").fit(X), rtol=1e-9, scale=sx, msg="median-centred " + mode)
    g = st("median_centre", "cov", center="median", y=Y)
    com = ref.r_median((x - mx) * (y - my))
    mon.close("median_centre", g, com, rtol=1e-9, scale=sx * sy)
    Dx, Dy = 1.4826 * ref.r_median(np.abs(x - mx)), 1.4826 * ref.r_median(np.abs(y - my))
    if Dx > 0 and Dy > 0:
        g = st("median_centre", "corr", center="median", y=Y)
        if abs(g - com / (Dx * Dy)) > 1e-8 * sx * sy / (Dx * Dy):
            now = com / np.sqrt(Dx * Dy)
            if abs(g - now) <= 1e-8 * sx * sy / np.sqrt(Dx * Dy):
                mon.known_finding("median-corr", "median-centred correlation divides by the root of the MADs")
            else:
                mon.close("median_centre", g, com / (Dx * Dy), rtol=1e-8, scale=sx * sy / (Dx * Dy))
    # co-moments need a second vector of the same length
    for mode in ("cov", "com", "corr", "cos", "cok", "M3", "continuum"):
        mon.rejects("second_vector", "%s without y" % mode, dicomo(mode=mode).fit, X)
    mon.rejects("second_vector", "cov with a shorter y", dicomo(mode="cov").fit, X, y=Y[:-1])
    mon.rejects("second_vector", "corr with an empty y", dicomo(mode="corr").fit, X, y=Y[:0])
