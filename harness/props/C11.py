"""Down-weighting functions and the robust cross-validation loss."""
import numpy as np
import pandas as pd
from scipy.stats import norm
from sklearn.metrics import make_scorer, mean_absolute_error, mean_squared_error
from sklearn.model_selection import GridSearchCV, KFold

import data
import ref
from api import cvsup, msup, robust_loss, sprm

RULE = (
    "seeded distance vectors (uniform, heavy tailed, exactly at and within one ulp of every cut-off, zeros, infinities, 1-d and column "
    "shaped) over random ordered cut-offs, compared with closed-form weights; the robust loss over residual vectors and metrics, and "
    "grid searches whose score table is recomputed; non-trivial = a distinct vector reaching at least two branches of the weight function"
)
ASSUMPTIONS = ["distances are non-negative, cut-offs ordered 0 < a < b < r"]
CLAUSES = [
    "fair", "huber", "hampel", "range", "monotone", "continuous", "boundary", "shape", "input_untouched", "scale_invariant", "elementwise",
    "loss_value", "loss_shapes", "loss_rejected", "loss_default", "score_table", "grid_search", "order_preserved", "brokenstick",
]


def gen(rng, tier):
    reps = 1500 if tier == "quick" else 30000
    for i in range(reps):
        yield {"kind": "weights", "n": int(rng.choice([1, 2, 7, 40, 200])), "how": str(rng.choice(["uniform", "heavy", "edges"]))}
        yield {"kind": "loss", "n": int(rng.choice([3, 10, 60])), "fun": ["Hampel", "Huber", "Fair"][i % 3]}
    for _ in range(12 if tier == "quick" else 150):
        yield {"kind": "grid"}


def run(case, mon):
    rng = data.rng_of(case)
    {"weights": weights, "loss": loss, "grid": grid}[case["kind"]](case, mon, rng)


def weights(case, mon, rng):
    a, b, r = np.cumsum(rng.uniform(0.2, 3, 3))
    n = case["n"]
    if case["how"] == "uniform":
        x = rng.uniform(0, 1.4 * r, n)
    elif case["how"] == "heavy":
        x = np.abs(rng.standard_t(1.5, n))
    else:
        e = [0.0, a, b, r, np.nextafter(a, 9), np.nextafter(a, 0), np.nextafter(b, 99), np.nextafter(b, 0), np.nextafter(r, 99), np.nextafter(r, 0), 1e300, np.inf, 1e-300]
        x = rng.choice(e, n)
    if rng.random() < 0.3:
        x = x[:, None]
    x0 = x.copy()
    out = {}
    for nm, f, args, w in (
        ("fair", msup.Fair, (a,), ref.w_fair(x0, a)),
        ("huber", msup.Huber, (a,), ref.w_huber(x0, a)),
        ("hampel", msup.Hampel, (a, b, r), ref.w_hampel(x0, a, b, r)),
    ):
        got = mon.call(nm, nm, f, x, *args)
        mon.ok("shape", np.shape(got) == x0.shape, "%s: shape %s for input %s" % (nm, np.shape(got), x0.shape))
        mon.ok("input_untouched", np.array_equal(x, x0), "%s changed its input" % nm)
        mon.close(nm, got, w, rtol=1e-11, scale=1, msg="cut-offs %g %g %g" % (a, b, r))
        v = np.asarray(got, float).reshape(-1)
        fx = x0.reshape(-1)
        mon.ok("range", (v >= 0).all() and (v <= 1).all(), "%s outside [0,1]: %s" % (nm, v))
        o = np.argsort(fx, kind="stable")
        mon.ok("monotone", (np.diff(v[o]) <= 1e-12).all(), "%s increases with distance" % nm)
        out[nm] = v
        # pointwise
        i = int(rng.integers(n))
        mon.close("elementwise", f(np.array([fx[i]]), *args), [v[i]], rtol=1e-12, scale=1)
        # jointly rescaling distances and cut-offs changes nothing
        s = 2.0 ** int(rng.integers(-3, 4))
        if np.isfinite(fx * s).all():
            mon.close("scale_invariant", np.asarray(f(x0 * s, *[q * s for q in args]), float).reshape(-1), v, rtol=1e-10, scale=1)
        for c in args:
            lo, hi = (float(np.asarray(f(np.array([q]), *args))[0]) for q in (c * (1 - 1e-9), c * (1 + 1e-9)))
            mon.ok("continuous", abs(lo - hi) < 1e-6 * (1 + r / (r - b)), "%s jumps from %g to %g at %g" % (nm, lo, hi, c))
            at = float(np.asarray(f(np.array([c]), *args))[0])
            mon.ok("boundary", abs(at - lo) < 1e-6 * (1 + r / (r - b)), "%s at the cut-off %g: %g" % (nm, c, at))
    mon.ok("hampel", (out["hampel"] <= out["huber"] + 1e-12).all(), "Hampel weights above Huber weights")
    h = ref.w_hampel(x0, a, b, r).reshape(-1)
    if len(set(np.round(h, 6))) > 1:
        mon.seen(x0, a, b, r)
    k = int(rng.integers(1, 30))
    bs = np.asarray(msup.brokenstick(k), float).reshape(-1)
    mon.close("brokenstick", bs, [sum(1.0 / j for j in range(i, k + 1)) / k for i in range(1, k + 1)], rtol=1e-10)
    mon.ok("brokenstick", abs(bs.sum() - 1) < 1e-10, "broken stick lengths sum to %g" % bs.sum())


def loss(case, mon, rng):
    n = case["n"]
    y = rng.standard_normal(n) * 2
    e = rng.standard_normal(n) * rng.choice([0.3, 1, 3])
    e[rng.random(n) < 0.15] *= 20
    p = y - e
    fun = getattr(msup, case["fun"])
    a, b, r = np.cumsum(rng.uniform(0.3, 2, 3))
    w = {"Fair": ref.w_fair(np.abs(e), a), "Huber": ref.w_huber(np.abs(e), a), "Hampel": ref.w_hampel(np.abs(e), a, b, r)}[case["fun"]]
    ex = y - p
    w = {"Fair": ref.w_fair(np.abs(ex), a), "Huber": ref.w_huber(np.abs(ex), a), "Hampel": ref.w_hampel(np.abs(ex), a, b, r)}[case["fun"]]
    if w.sum() == 0:
        return
    for lf, raw in ((mean_squared_error, ex ** 2), (mean_absolute_error, np.abs(ex))):
        want = (w * raw).sum() / w.sum()
        for ys, ps in ((y, p), (y[:, None], p), (y, p[:, None]), (y[:, None], p[:, None]), (np.matrix(y).T, np.matrix(p).T)):
            g = mon.call("loss_shapes", "robust_loss", robust_loss, ys, ps, lfun=lf, fun=fun, probct=a, hampelb=b, hampelr=r)
            mon.close("loss_value", g, want, rtol=1e-9, msg=case["fun"])
        g = mon.call("loss_shapes", "robust_loss", robust_loss, pd.Series(y), p, lfun=lf, fun=fun, probct=a, hampelb=b, hampelr=r)
        mon.close("loss_value", g, want, rtol=1e-9)
    mon.seen(y, p, case["fun"])
    c = norm.ppf([0.975, 0.99, 0.999])
    wd = ref.w_hampel(np.abs(ex), *c)
    if wd.sum() > 0:
        mon.close("loss_default", robust_loss(y.copy(), p.copy()), (wd * ex ** 2).sum() / wd.sum(), rtol=1e-9)
    # a case beyond the rejection point does not influence the loss (redescending function)
    if case["fun"] == "Hampel":
        y2, p2 = np.append(y, 0.0), np.append(p, r * 1.01 + rng.uniform(0, 1e6))
        mon.close("loss_rejected", robust_loss(y2, p2, fun=fun, probct=a, hampelb=b, hampelr=r), (w * ex ** 2).sum() / w.sum(), rtol=1e-9)
    pr = rng.permutation(n)
    mon.close("order_preserved", robust_loss(y[pr], p[pr], fun=fun, probct=a, hampelb=b, hampelr=r), (w * ex ** 2).sum() / w.sum(), rtol=1e-9)


def grid(case, mon, rng):
    n, p = 40, 5
    X = data.matrix(rng, n, p, "corr")
    y = data.response(rng, X, "linear")
    y[:4] += 50
    etas = sorted(set(float(v) for v in rng.choice([0.0, 0.2, 0.5, 0.8], 3)))
    hs = [1, 2, 3][: int(rng.integers(2, 4))]
    scorer = make_scorer(robust_loss, greater_is_better=False)
    cv = KFold(4)
    gs = GridSearchCV(sprm(verbose=False), {"eta": etas, "n_components": hs}, scoring=scorer, cv=cv)
    mon.call("grid_search", "GridSearchCV.fit", gs.fit, X.copy(), y.copy())
    tab = mon.call("score_table", "cv_score_table", cvsup.cv_score_table, gs)
    mon.ok("score_table", list(tab.columns) == ["etas", "n_components", "score"] and len(tab) == len(etas) * len(hs), "table %s" % list(tab.columns))
    seen = set()
    for _, row in tab.iterrows():
        e, h = float(row["etas"]), int(row["n_components"])
        seen.add((e, h))
        sc = []
        for tr, te in cv.split(X):
            m = sprm(verbose=False, eta=e, n_components=h).fit(X[tr].copy(), y[tr].copy())
            ex = y[te] - np.asarray(m.predict(X[te])).reshape(-1)
            w = ref.w_hampel(np.abs(ex), *norm.ppf([0.975, 0.99, 0.999]))
            sc.append(-(w * ex ** 2).sum() / w.sum())
        mon.close("score_table", row["score"], np.mean(sc), rtol=1e-7, msg="eta %g h %d" % (e, h))
    mon.ok("grid_search", seen == {(e, h) for e in etas for h in hs}, "settings in the table %s" % seen)
    best = max(zip(tab["score"], tab["etas"], tab["n_components"]))
    if np.isfinite(best[0]):
        mon.close("grid_search", gs.best_score_, best[0], rtol=1e-12)
    mon.seen("grid", X, tuple(etas))
