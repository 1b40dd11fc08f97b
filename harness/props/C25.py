"""Bootstrap estimation of the structural dimension."""
import contextlib
import io

import numpy as np
import pandas as pd

import data
from api import estimate_structural_dim, sudire

RULE = (
    "estimate_structural_dim over SIR, SAVE, DR, PHD with random settings, data and numbers of replications, with every fit it performs recorded (data, response, settings, resulting projection); the trace is "
    "checked for joint resampling with replacement and the reported variabilities and dimension are recomputed from it; non-trivial = a distinct run"
)
ASSUMPTIONS = ["the estimator's own projection matrices are trusted here (decided by C16)"]
CLAUSES = ["trace_complete", "joint_resampling", "with_replacement", "all_cases", "distinct_resamples", "settings", "variability", "dimension", "range", "full_space", "reproducible", "recovery", "frame", "uniform", "distinct_cases", "multiplicity"]


class Trace:
    """records every fit of the estimator class"""

    def __enter__(self):
        self.log = []
        self.orig = orig = sudire.fit
        log = self.log

        def fit(est, X, *a, **k):
            r = orig(est, X, *a, **k)
            y = k["y"] if "y" in k else a[0]
            log.append({"X": np.array(X, float), "y": np.array(y, float).reshape(-1), "params": {q: v for q, v in est.get_params().items()}, "proj": np.array(est.proj_mat_, float)})
            return r

        sudire.fit = fit
        return self

    def __exit__(self, *a):
        sudire.fit = self.orig


def gen(rng, tier):
    reps = 160 if tier == "quick" else 4000
    for i in range(reps):
        yield {"kind": "run", "meth": ["sir", "save", "dr", "phd"][i % 4], "p": int(rng.integers(1, 5)), "n": int(rng.choice([30, 45, 60])), "B": int(rng.integers(1, 12)), "slices": int(rng.choice([2, 3, 6])),
               "center": str(rng.choice(["mean", "median"])), "cd": bool(rng.random() < 0.8), "sd": bool(rng.random() < 0.8), "default": bool(rng.random() < 0.3), "frame": bool(rng.random() < 0.3)}
    for i in range(8 if tier == "quick" else 60):
        yield {"kind": "resample", "meth": ["sir", "save", "dr", "phd"][i % 4], "n": int(rng.choice([20, 40, 60])), "B": 250}
    for i in range(max(4, reps // 20)):
        yield {"kind": "recover"}


def run(case, mon):
    rng = data.rng_of(case)
    if case["kind"] == "recover":
        return recover(case, mon, rng)
    if case["kind"] == "resample":
        return resample(case, mon, rng)
    n, p, B, meth = case["n"], case["p"], case["B"], case["meth"]
    if p == 1 and meth != "phd":
        p = 2
    if p == 1:
        p = 2
    X = data.matrix(rng, n, p, "corr")
    t = (X - X.mean(0)) @ (rng.standard_normal(p) / X.std(0))
    y = t + 0.3 * t ** 2 + 0.2 * rng.standard_normal(n)
    kw = {} if case["default"] else dict(n_slices=case["slices"], center=case["center"], center_data=case["cd"], scale_data=case["sd"])
    want = dict(dict(n_slices=6, center="mean", center_data=True, scale_data=True), **kw)
    if meth == "sir" and p > want["n_slices"] - 1:
        meth = "save"
    lab = "%s n=%d p=%d B=%d %s" % (meth, n, p, B, kw)
    seed = int(rng.integers(1 << 30))
    np.random.seed(seed)
    a = (pd.DataFrame(X), pd.Series(y, index=rng.permutation(n))) if case["frame"] else (X.copy(), [y, y[:, None]][int(rng.integers(2))].copy())
    with Trace() as tr, contextlib.redirect_stdout(io.StringIO()):
        try:
            dim, md = estimate_structural_dim(meth, a[0], a[1], B, **kw)
        except np.linalg.LinAlgError:
            mon.event("degenerate_resample")
            return
    if case["frame"]:
        mon._count("frame")
    L = tr.log
    mon.event("fits_recorded", len(L))
    key = [tuple(r) for r in np.column_stack([X, y])]
    pos = {k: i for i, k in enumerate(key)}
    whole, boots = [], []
    for e in L:
        k = e["params"]["n_components"]
        rows = [tuple(r) for r in np.column_stack([e["X"], e["y"]])]
        if not mon.ok("joint_resampling", len(rows) == n and all(r in pos for r in rows), "%s: a fit uses cases that are not cases of the data" % lab):
            return
        idx = [pos[r] for r in rows]
        (whole if sorted(idx) == list(range(n)) else boots).append((k, idx, e))
        mon.ok("settings", e["params"]["sudiremeth"] == meth and all(e["params"][q] == v for q, v in want.items()), "%s: a fit uses %s" % (lab, {q: e["params"][q] for q in want}))
    ks = range(1, p + 1)
    ok = sorted({k for k, _, _ in whole}) == list(ks) and all(sum(k == q for k, _, _ in boots) == B for q in ks)
    mon.ok("trace_complete", ok, "%s: fits on the data for dimensions %s, resamples per dimension %s" % (lab, sorted(k for k, _, _ in whole), [sum(k == q for k, _, _ in boots) for q in ks]))
    mon.seen(lab, X)
    u = [len(set(i)) / n for _, i, _ in boots]
    mon.ok("with_replacement", all(0.3 < v < 0.95 for v in u), "%s: fraction of distinct cases in the resamples %s" % (lab, np.round(u, 2)))
    mon.ok("distinct_resamples", len({(k, tuple(i)) for k, i, _ in boots}) == len(boots), "%s: the same resample is used twice" % lab)
    tot = len(boots) * n
    cnt = np.bincount(np.concatenate([i for _, i, _ in boots]), minlength=n)
    lam = tot / n
    if lam > 20:
        mon.ok("all_cases", cnt.min() > 0, "%s: case(s) %s never resampled" % (lab, np.where(cnt == 0)[0]))
        chi = ((cnt - lam) ** 2 / lam).sum()
        mon.ok("uniform", chi < n + 12 * np.sqrt(2 * n), "%s: resampling is not uniform over the cases (chi-square %.1f for %d cases)" % (lab, chi, n))
    if not ok:
        return
    proj = {k: e["proj"] for k, _, e in whole}
    exp = [np.mean([np.linalg.norm(proj[q] - e["proj"], 2) for k, _, e in boots if k == q]) for q in ks]
    mon.close("variability", md, exp, rtol=1e-9, scale=1, msg=lab)
    mon.ok("range", all(-1e-9 <= v <= 1 + 1e-6 for v in np.asarray(md, float)), "%s: variabilities %s outside [0,1]" % (lab, md))
    mon.ok("full_space", abs(md[-1]) < 1e-4, "%s: the full space varies by %.3g" % (lab, md[-1]))
    best = int(np.argmin(np.asarray(exp)[: max(p - 1, 1)])) + 1
    srt = np.sort(exp[: max(p - 1, 1)])
    if len(srt) < 2 or srt[1] - srt[0] > 1e-9:
        mon.ok("dimension", int(dim) == best, "%s: dimension %s, least variable proper subspace has %d (%s)" % (lab, dim, best, exp))
    np.random.seed(seed)
    with contextlib.redirect_stdout(io.StringIO()):
        d2, m2 = estimate_structural_dim(meth, a[0], a[1], B, **kw)
    mon.ok("reproducible", int(d2) == int(dim) and np.array_equal(m2, md), "%s: the same seed gives another answer" % lab)


def recover(case, mon, rng):
    hits = 0
    for _ in range(5):
        X = rng.standard_normal((250, 4))
        y = X @ data.unit(rng.standard_normal(4)) * 2 + 0.1 * rng.standard_normal(250)
        with contextlib.redirect_stdout(io.StringIO()):
            np.random.seed(int(rng.integers(1 << 30)))
            dim, md = estimate_structural_dim("sir", X, y, 12)
        hits += int(dim) == 1
        mon.seen(X)
    mon.ok("recovery", hits >= 4, "the one-dimensional structure was recognised in %d of 5 strong-signal data sets" % hits)


def resample(case, mon, rng):
    """the law of the resamples: n independent draws out of n cases"""
    n, B, meth = case["n"], case["B"], case["meth"]
    X = rng.standard_normal((n, 2))
    y = X[:, 0] + X[:, 1] ** 2 + 0.2 * rng.standard_normal(n)
    np.random.seed(int(rng.integers(1 << 30)))
    with Trace() as tr, contextlib.redirect_stdout(io.StringIO()):
        try:
            estimate_structural_dim(meth, X.copy(), y.copy(), B, n_slices=3)
        except np.linalg.LinAlgError:
            mon.event("degenerate_resample")
            return
    pos = {tuple(r): i for i, r in enumerate(np.column_stack([X, y]))}
    I = [[pos.get(tuple(r), -1) for r in np.column_stack([e["X"], e["y"]])] for e in tr.log]
    I = np.array([i for i in I if sorted(i) != list(range(n))])
    if not mon.ok("joint_resampling", (I >= 0).all() and len(I) >= B, "%s: %d resamples, %d of their cases are not cases of the data" % (meth, len(I), (I < 0).sum())):
        return
    mon.event("resamples_recorded", len(I))
    d = np.array([len(set(i)) for i in I], float)
    q = (1 - 1 / n) ** n
    ed = n * (1 - q)
    vd = n * q * (1 - q) + n * (n - 1) * ((1 - 2 / n) ** n - q * q)
    mon.ok("distinct_cases", abs(d.mean() - ed) <= 6 * np.sqrt(vd / len(d)), "%s n=%d: %.2f distinct cases per resample over %d resamples, sampling with replacement gives %.2f" % (meth, n, d.mean(), len(d), ed))
    # multiplicity of a case in a resample: Binomial(n, 1/n); its variance and its independence over positions
    cnt = np.array([np.bincount(i, minlength=n) for i in I])
    v, ev = cnt.var(axis=1).mean(), 1 - 1 / n
    se = np.sqrt(2.0 / (n * len(I))) * 1.5
    mon.ok("multiplicity", abs(v - ev) <= 6 * se, "%s n=%d: variance of case multiplicities %.3f, expected %.3f" % (meth, n, v, ev))
    tot = cnt.sum(0)
    lam = len(I)
    chi = ((tot - lam) ** 2 / lam).sum()
    mon.ok("uniform", chi < n + 12 * np.sqrt(2 * n), "%s: resampling is not uniform over the cases (chi-square %.1f for %d cases)" % (meth, chi, n))
    pc = np.bincount(I[:, 0], minlength=n)
    mon.ok("uniform", (pc > 0).sum() > n * 0.5, "%s: the first case of the resamples is always one of %d" % (meth, (pc > 0).sum()))
    mon.seen("resample", meth, X)
