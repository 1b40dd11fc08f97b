"""Results follow a change of units, origin or order of the data."""
import numpy as np

import data
import zoo

RULE = (
    "every regression and dimension reduction estimator with random valid settings fitted on data and on the same data with cases reordered, columns reordered, columns shifted, columns rescaled, columns "
    "reflected, all data rescaled, response shifted, rescaled or reflected; predictions of new cases, fitted values, residuals, coefficients, case weights and scores compared after undoing the change; "
    "non-trivial = a distinct (estimator, settings, change) triple"
)
ASSUMPTIONS = [
    "a run whose predictions already move when the data are perturbed in the last digits is skipped and counted",
    "rescaling single columns is claimed for columnwise centres and scales (mean, median; standard deviation, MAD); the iterative centres (spatial median, k-step) are left out when units change, their own equivariance is decided by C01",
    "reflecting the response is not claimed for sparse partial robust M regression and tau scales are left out (recorded findings of C09 and C01)",
    "projection pursuit follows a reordering of cases with the grid search only (SLSQP starts at the first case) and a reordering of columns with SLSQP only (the grid visits columns in order)",
]
NM = ["sprm", "snipls", "rm", "ppdire", "sudire"]
OPS = ["rows", "cols", "xshift", "xscale", "xall", "xflip", "yshift", "yscale", "yflip"]
CLAUSES = ["%s_%s" % (n, o) for n in NM for o in OPS if (n, o) != ("sprm", "yflip")] + ["predict", "fitted", "residuals", "coef", "intercept", "caseweights", "scores"]


def gen(rng, tier):
    reps = 60 if tier == "quick" else 700
    for i in range(reps):
        for nm in NM:
            for op in OPS:
                if (nm, op) == ("sprm", "yflip"):
                    continue  # recorded finding of C09: the starting weights look at signed residuals
                yield {"kind": "est", "name": nm, "op": op, "data": str(rng.choice(["corr", "gauss", "outliers", "skew"])), "n": int(rng.choice([20, 31])), "p": int(rng.choice([2, 3, 4])), "yout": bool(rng.random() < 0.3)}


def run(case, mon):
    rng = data.rng_of(case)
    nm, op, n, p = case["name"], case["op"], case["n"], case["p"]
    c = zoo.config(rng, nm, p)
    if nm in ("sprm", "snipls", "rm") and op in ("xscale",):
        c["kw"]["centre"] = str(rng.choice(["mean", "median"]))
        c["kw"]["scale"] = str(rng.choice(["std", "mad"]))
        c["kw"]["start_X_init"] = c["kw"].get("start_X_init", "pcapp")
        if nm != "sprm":
            c["kw"].pop("start_X_init")
    if nm == "ppdire":
        c["index"], c["est"], c["mode"] = "dicomo", "arithmetic", "cov"
        c["kw"].update(trimming=0, n_components=1, whiten_data=False, optimizer="SLSQP", optimizer_options={"maxiter": 2000, "ftol": 1e-15})
        if op == "rows":
            c["kw"].update(optimizer="grid", optimizer_options={"ndir": 40, "maxiter": 6})
        if op in ("xscale", "yscale", "xall", "yflip", "xflip"):
            c["kw"]["scale_data"] = True
        if op == "yflip":  # a signed index: the direction turns round with the response
            c["kw"]["regopt"] = "OLS"
    if nm == "sudire" and op == "xscale":
        c["kw"].update(scale_data=True, center_data=True)
    if nm == "sudire" and op in ("xshift",):
        c["kw"].update(center_data=True)
    if nm == "sudire":
        c["kw"]["n_components"] = 1
        if op == "yflip" and c["kw"]["sudiremeth"] in ("sir", "save", "dr", "phd"):
            c["kw"]["sudiremeth"] = "iht"  # slices are cut from below; PHD orders curvatures by sign (recorded finding)
        if op == "xall" and not c["kw"]["scale_data"] and c["kw"]["sudiremeth"] in ("save", "dr", "iht"):
            c["kw"]["scale_data"] = True  # these kernels mix powers of the covariance
    if op in ("xall", "yscale") and c["kw"].get("centre") in ("l1median", "kstepLTS"):
        c["kw"]["centre"] = "median"  # iterative centres stop at a tolerance in the units of the data
    if c["kw"].get("scale") == "scaleTau2":  # recorded finding of C01: pools the columns
        c["kw"]["scale"] = "mad"
    X = data.matrix(rng, n, p, case["data"])
    if nm == "rm" and case["data"] == "outliers":
        X = data.matrix(rng, n, p, "corr")
    y = data.response(rng, X, "linear", 0.3)
    if case["yout"] and nm in ("sprm", "rm"):
        y[rng.integers(n)] += 20 * y.std()
    Xn = X[rng.integers(0, n, 6)] * 0.7 + X[rng.integers(0, n, 6)] * 0.4
    lab = "%s %s %s" % (nm, op, c["kw"])

    def fit(Xa, ya):
        e = zoo.build(c)
        zoo.fit(e, c, Xa.copy(), ya.copy())
        return e

    loose = nm == "ppdire" or c["kw"].get("centre") in ("l1median", "kstepLTS") or c["kw"].get("center") == "l1median" or c["kw"].get("scale") == "scaleTau2" or (nm == "ppdire" and c["kw"].get("regopt") != "OLS")
    try:
        e0 = fit(X, y)
        f0 = np.asarray(e0.predict(Xn), float).reshape(-1)
        eps = [fit(X * (1 + 1e-11 * rng.standard_normal(X.shape)), y * (1 + 1e-11 * rng.standard_normal(n))) for _ in range(2)]
        soft = []
        if loose and nm != "ppdire":  # iterative centres stop at a tolerance: how much does a small error of the centre matter here
            soft = [fit(X + q * np.abs(X - np.median(X, axis=0)).mean(0) * rng.standard_normal(p), y) for q in (1e-4, 1e-3, 1e-3)] if c["kw"].get("centre") not in ("l1median", "kstepLTS") else [
                fit(np.where(rng.random((n, p)) < 0.5, X, X + q * X.std(0) * rng.standard_normal((n, p))), y) for q in (1e-4, 1e-3, 1e-3)]
    except Exception as ex:
        mon.event("fit_failed")
        return
    sy = y.std()
    big = sy + np.abs(f0).max()
    wob = max(np.abs(np.asarray(e.predict(Xn), float).reshape(-1) - f0).max() for e in eps) / big
    if not np.isfinite(f0).all() or not wob < 1e-7:
        mon.event("skipped_sensitive")
        return
    sw = max([np.abs(np.asarray(e.predict(Xn), float).reshape(-1) - f0).max() / big for e in soft] + [0])
    if sw > 1e-2:
        mon.event("skipped_sensitive")
        return
    pr = rng.permutation(n) if op == "rows" else np.arange(n)
    pc = rng.permutation(p) if op == "cols" else np.arange(p)
    a, b = np.ones(p), np.zeros(p)
    ay, by = 1.0, 0.0
    if op == "xshift":
        b = rng.uniform(-5, 5, p) * X.std(0)
    elif op == "xscale":
        a = 10.0 ** ((rng.uniform(-2, 2.5, p) if nm == "sudire" and c["kw"]["center"] == "mean" else rng.uniform(-3.5, 4, p)) if rng.random() < 0.4 and nm != "ppdire" else rng.uniform(-0.7, 1.5, p))
        if rng.random() < 0.2 and nm != "ppdire" and not (nm == "sudire" and c["kw"]["center"] == "mean"):  # one variable recorded in much larger units
            j = int(rng.integers(p))
            a[j] = 10.0 ** rng.uniform(-4, -3) / min(1, X[:, j].std())
        b = rng.uniform(-2, 2, p) * a
    elif op == "xall":
        a = np.full(p, 10.0 ** (rng.uniform(-3, 4) if rng.random() < 0.4 and nm != "ppdire" and c["kw"].get("scale") != "None" and "l1median" not in c["kw"].values() else rng.uniform(-0.5, 1.5)))
    elif op == "xflip":
        a = rng.choice([-1.0, 1.0], p)
        a[int(rng.integers(p))] = -1
    elif op == "yshift":
        by = float(rng.uniform(-5, 5) * sy)
    elif op == "yscale":
        ay = float(10.0 ** (rng.uniform(-4, 5) if rng.random() < 0.4 and nm != "ppdire" and c["kw"].get("scale") != "None" and "l1median" not in c["kw"].values() else rng.uniform(-1, 2)))
        by = float(rng.uniform(-2, 2) * sy * ay)
    elif op == "yflip":
        ay = -1.0
    T = lambda M: (M * a + b)[:, pc]
    if nm in ("sudire",) and op in ("xshift", "yshift") and not c["kw"]["center_data"] and op == "xshift":
        return
    e1 = mon.call("predict", lab, fit, T(X)[pr], (y * ay + by)[pr])
    f1 = np.asarray(e1.predict(T(Xn)), float).reshape(-1)
    tol = max(1e-3 if nm == "ppdire" else 5e-3 if loose and op in ('xall', 'xscale', 'yscale') else 1e-4 if loose else 1e-6, 100 * wob, 10 * sw if op in ('xall', 'xscale', 'yscale') else 0)
    mon.seen(lab, X)

    def cmp(what, got, want, scale):
        ok = mon.close(what, got, want, rtol=tol, scale=scale, msg=lab)
        return ok

    good = cmp("predict", (f1 - by) / ay, f0, big)
    mon.ok("%s_%s" % (nm, op), good, "%s: predictions %s, expected %s" % (lab, (f1 - by) / ay, f0))
    if nm == "sudire":
        P0, P1 = np.asarray(e0.x_loadings_, float)[pc], np.asarray(e1.x_loadings_, float)
        R = P1 * a[pc][:, None]  # the same direction in the old units
        s = abs(float((data.unit(R[:, 0]) @ data.unit(P0[:, 0]))))
        good = mon.ok("scores", s > 1 - 1e-6, "%s: the direction turned (cosine %.8f)" % (lab, s))
        return
    cmp("fitted", ((np.asarray(e1.fitted_, float).reshape(-1) - by) / ay), np.asarray(e0.fitted_, float).reshape(-1)[pr], big)
    cmp("residuals", np.asarray(e1.residuals_, float).reshape(-1) / ay, np.asarray(e0.residuals_, float).reshape(-1)[pr], big)
    C = lambda e: np.asarray(e.coef_, float).reshape(-1) if np.asarray(e.coef_).ndim < 2 or np.asarray(e.coef_).shape[1] == 1 else np.asarray(e.coef_, float)[:, -1]
    c0, c1 = C(e0), C(e1)
    if len(c0) == p == len(c1):
        sx = X.std(0)
        cmp("coef", c1 * (a * sx)[pc] / ay, (c0 * sx)[pc], max(np.abs(c0 * sx).max(), 0.1 * sy))
        i0, i1 = float(np.ravel(e0.intercept_)[0]), float(np.ravel(e1.intercept_)[0])
        cmp("intercept", [(i1 + c1 @ b[pc] - by) / ay], [i0], big + (np.abs(c0) * np.abs(X).max(0)).sum() + abs(i0))
    if nm in ("sprm", "rm"):
        w0 = np.asarray(e0.caseweights_ if hasattr(e0, "caseweights_") else e0.wvec_, float).reshape(-1) if (hasattr(e0, "caseweights_") or hasattr(e0, "wvec_")) else None
        if w0 is not None:
            w1 = np.asarray(e1.caseweights_ if hasattr(e1, "caseweights_") else e1.wvec_, float).reshape(-1)
            cmp("caseweights", w1, w0[pr], 1.0 * 10)
    if nm in ("sprm", "snipls") and op not in ("xall",):
        T0, T1 = np.asarray(e0.x_scores_, float)[pr], np.asarray(e1.x_scores_, float)
        if c["kw"]["scale"] != "None" or op not in ("xscale",):
            sg = np.sign((T0 * T1).sum(0))
            cmp("scores", T1 * sg, T0, np.abs(T0).max())
