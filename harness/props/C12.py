"""Resistance of the robust options to gross outliers."""
import numpy as np

import data
import ref
from api import VersatileScaler, Wrapper, gen_ss_covmat, rm, sprm

RULE = (
    "seeded clean samples of which a random 5-30% (models: 5-15%) of the cases are replaced by gross outliers (single direction, clustered, "
    "symmetric, vertical, leverage) of magnitude 1e2..1e8 (models 15..600) clean spreads; location, scale, wrapped data, sign covariance and robust fits "
    "compared with the clean part; non-trivial = a distinct contaminated sample on which the classical estimate moves by more than 10 spreads"
)
ASSUMPTIONS = [
    "bounds on the models hold for n >= 10 p, signal-to-noise >= 3, at most 15% outliers of 15 to 600 spreads (bad leverage points up to 100 spreads, Hampel weights only); calibrated with a wide margin. Beyond that the floor of 1e-6 on working weights and the unbounded influence of leverage points under Huber and Fair weights let outliers through by design",
]
CLAUSES = ["location", "scale", "wrap", "gss_cov", "rm_coef", "sprm_coef", "flagged", "clean_kept", "prediction", "gross_no_influence", "classical_moves", "scaled_clean"]


def gen(rng, tier):
    reps = 250 if tier == "quick" else 5000
    for i in range(reps):
        yield {"kind": "univ", "n": int(rng.choice([20, 41, 100])), "p": int(rng.integers(2, 6)), "eps": float(rng.choice([0.05, 0.15, 0.3])),
               "mag": float(10 ** rng.uniform(2, 8)), "shape": str(rng.choice(["cluster", "symmetric", "spread", "ranges"]))}
        fun = ["Hampel", "Hampel", "Huber", "Fair"][i % 4]
        est = "rm" if fun == "Huber" else ["rm", "sprm"][(i // 4) % 2]
        shape = str(rng.choice(["vertical", "vertical+", "leverage"])) if fun == "Hampel" else str(rng.choice(["vertical", "vertical+"]))
        yield {"kind": "model", "p": int(rng.integers(2, 5)), "n": int(rng.choice([60, 100])), "eps": float(rng.choice([0.05, 0.1, 0.15])),
               "mag": float(10 ** rng.uniform(1.2, 2 if shape == "leverage" else 2.8)), "shape": shape, "fun": fun, "est": est}


def run(case, mon):
    rng = data.rng_of(case)
    univ(case, mon, rng) if case["kind"] == "univ" else model(case, mon, rng)


def univ(case, mon, rng):
    n, p = case["n"], case["p"]
    C = rng.standard_normal((n, p)) * rng.uniform(0.5, 3, p) + rng.uniform(-5, 5, p)
    k = max(1, int(case["eps"] * n))
    bad = rng.choice(n, k, replace=False)
    good = np.setdiff1d(np.arange(n), bad)
    X = C.copy()
    d = data.unit(rng.standard_normal(p)) + 0.2
    if case["shape"] == "cluster":
        X[bad] = C.mean(0) + case["mag"] * d + rng.standard_normal((k, p))
    elif case["shape"] == "symmetric":
        X[bad] = C.mean(0) + case["mag"] * d * rng.choice([-1, 1], (k, 1))
    elif case["shape"] == "ranges":  # gross, and of widely varying size
        X[bad] = C.mean(0) + 10 ** rng.uniform(2, max(2.1, np.log10(case["mag"])), (k, 1)) * rng.uniform(0.5, 2, (k, p)) * rng.choice([-1, 1], (k, p)) * C.std(0)
    else:
        X[bad] = C.mean(0) + case["mag"] * rng.uniform(0.5, 2, (k, p)) * rng.choice([-1, 1], (k, p))
    G = C[good]
    lo, hi, sp = G.min(0), G.max(0), G.std(0)
    mon.event("outliers", k)
    if np.abs(X.mean(0) - G.mean(0)).max() > 10 * sp.max() or X.std(0).max() > 10 * sp.max():
        mon._count("classical_moves")
        mon.seen(X)
    for cen in ("median", "l1median", "kstepLTS"):
        v = mon.call("location", cen, VersatileScaler(center=cen, scale="None").fit, X.copy()).col_loc_
        v = np.asarray(v, float)
        slack = 0 if cen == "median" else 5.0
        mon.ok("location", (v >= lo - slack * sp).all() and (v <= hi + slack * sp).all(), "%s of contaminated data %s outside the clean range %s..%s" % (cen, v, lo, hi))
    for sc in ("mad",):
        v = np.asarray(VersatileScaler(center="median", scale=sc).fit(X.copy()).col_sca_, float)
        mon.ok("scale", (v > 0.1 * sp).all() and (v < 6 * sp).all(), "%s %s, clean spread %s" % (sc, v, sp))
    for j in range(p):
        v = float(np.asarray(VersatileScaler(center="median", scale="scaleTau2").fit(X[:, [j]].copy()).col_sca_).reshape(-1)[0])
        mon.ok("scale", 0.1 * sp[j] < v < 6 * sp[j], "scaleTau2 %g, clean spread %g" % (v, sp[j]))
    # scaling with robust centre and scale leaves the clean part on its own scale
    Z = np.asarray(VersatileScaler(center="median", scale="mad").fit_transform(X.copy()), float)
    mon.ok("scaled_clean", np.abs(Z[good]).max() < 60, "clean cases reach %g robust units" % np.abs(Z[good]).max())
    W = np.asarray(mon.call("wrap", "Wrapper", Wrapper().fit_transform, X.copy()), float)
    mon.ok("wrap", (W >= G.mean(0) - 14 * sp).all() and (W <= G.mean(0) + 14 * sp).all(), "wrapped data reach %s" % W[np.argmax(np.abs(W).max(1))])
    if n > p:
        for f in ("ss", "ball", "shell", "winsor", "quad", "linear_redescending"):
            S = np.asarray(gen_ss_covmat(X.copy(), center="l1median", fun=f), float)
            top = np.linalg.eigvalsh(S).max()
            lim = 1.01 if f == "ss" else 60 * (sp ** 2).sum()
            mon.ok("gss_cov", top <= lim, "%s covariance eigenvalue %g above %g" % (f, top, lim))


def model(case, mon, rng):
    n, p = case["n"], case["p"]
    X = rng.standard_normal((n, p)) * rng.uniform(0.5, 3, p) + rng.uniform(-3, 3, p)
    sx = X.std(0)
    b = rng.choice([-1, 1], p) * rng.uniform(0.7, 1.5, p) / sx
    y = X @ b + 2 + 0.2 * rng.standard_normal(n)
    yc, Xc = y.copy(), X.copy()
    k = max(1, int(case["eps"] * n))
    bad = rng.choice(n, k, replace=False)
    good = np.setdiff1d(np.arange(n), bad)
    if case["shape"] == "vertical":
        y[bad] += case["mag"] * rng.choice([-1, 1], k)
    elif case["shape"] == "vertical+":
        y[bad] += case["mag"]
    else:
        X[bad] += case["mag"] * rng.choice([-1, 1], (k, p)) * sx
        y[bad] += 100 * rng.standard_normal(k)
    mon.event("outliers", k)
    if case["est"] == "rm":
        make = lambda: rm(fun=case["fun"], verbose=False)
    else:
        make = lambda: sprm(fun=case["fun"], eta=0.0, n_components=p, verbose=False)
    clause = case["est"] + "_coef"
    o = mon.call(clause, case["est"], make().fit, X.copy(), y.copy())
    clean = make().fit(Xc[good].copy(), yc[good].copy())
    mon.seen(X, y, case["fun"], case["est"])
    got, cl = (np.asarray(q.coef_, float).reshape(-1) * sx for q in (o, clean))
    bound = {"Hampel": 0.4, "Huber": 0.6, "Fair": 0.6}[case["fun"]] * (2 if case["shape"] == "leverage" else 1) * np.linalg.norm(b * sx)
    lab = "%s %s %s eps %g mag %g" % (case["est"], case["fun"], case["shape"], case["eps"], case["mag"])
    mon.worst[clause] = max(mon.worst.get(clause, 0), np.linalg.norm(got - cl) / bound)
    mon.ok(clause, np.linalg.norm(got - cl) <= bound, "%s: coefficients %s, on the clean cases %s" % (lab, got, cl))
    pg = np.asarray(o.predict(Xc[good])).reshape(-1)
    rmse = np.sqrt(np.median((pg - yc[good]) ** 2))
    mon.worst["prediction"] = max(mon.worst.get("prediction", 0), rmse / (0.6 * yc.std()))
    mon.ok("prediction", rmse <= 0.6 * yc.std(), "%s: median prediction error %g on clean cases (spread %g)" % (lab, rmse, yc.std()))
    w = np.asarray(o.caseweights_, float)
    if case["shape"] == "leverage":
        # now and then a leverage point lies on the fitted plane by chance
        mon.ok("flagged", np.median(w[bad]) <= 1e-6 or (w[bad] > 1e-6).sum() <= 2, "%s: outlier weights %s" % (lab, w[bad]))
    else:
        mon.worst["flagged"] = max(mon.worst.get("flagged", 0), w[bad].max() / 0.5)
        mon.ok("flagged", w[bad].max() <= 0.5, "%s: outlier weights %s" % (lab, w[bad]))
        if case["fun"] == "Hampel":
            mon.ok("flagged", w[bad].max() <= 1e-6, "%s: outliers kept with weights %s" % (lab, w[bad]))
    mon.worst["clean_kept"] = max(mon.worst.get("clean_kept", 0), 0.4 / max(np.median(w[good]), 1e-9))
    mon.ok("clean_kept", np.median(w[good]) >= 0.4, "%s: median clean weight %g" % (lab, np.median(w[good])))
    if case["shape"].startswith("vertical") and case["fun"] == "Hampel" and case["mag"] < 100:
        y2 = y.copy()
        y2[bad] += 5 * (y[bad] - yc[bad])
        o2 = make().fit(X.copy(), y2)
        g2 = np.asarray(o2.coef_, float).reshape(-1) * sx
        mon.ok("gross_no_influence", np.linalg.norm(g2 - got) <= bound, "%s: moving the outliers 6 times further changes %s to %s" % (lab, got, g2))
