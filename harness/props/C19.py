"""Results depend on the numbers, not on the container they arrive in."""
import numpy as np
import pandas as pd

import data
import zoo
from api import dicomo, estimate_structural_dim, gen_ss_covmat, gen_ss_pp, pre, robust_loss, versatile_scale

RULE = (
    "every estimator with random valid settings fitted on the same numbers as C-ordered, Fortran-ordered, strided, reversed, read-only and integer arrays and as data "
    "frames with default, labelled, shuffled and duplicate indices, mixed column types and labels that sort differently; responses as vectors, columns, series and "
    "one-column frames with other indices than X; all results and new-data outputs compared; non-trivial = a distinct (estimator, settings, container pair)"
)
ASSUMPTIONS = ["a run whose results already move when the data are perturbed in the last digits is skipped and counted (rounding may differ between memory layouts)",
               "optional solver replaced by a stand-in with the same interface"]
XC = ["f", "view", "reverse", "readonly", "df", "dfidx", "dfint", "dfdup", "dfmixed", "int", "dfobject"]
YC = ["col", "series", "seriesidx", "frame", "frameidx", "readonly", "view", "int", "fcol"]
CLAUSES = ["fit_x_" + n for n in zoo.NAMES] + ["fit_y_" + n for n in zoo.NAMES if zoo.needs_y(n)] + ["new_data", "functions", "structural_dim", "shapes", "column_names"] + ["x_" + k for k in XC] + ["y_" + k for k in YC]


def gen(rng, tier):
    reps = 110 if tier == "quick" else 2000
    for i in range(reps):
        for j, nm in enumerate(zoo.NAMES):
            yield {"kind": "est", "name": nm, "cx": XC[(i + j) % len(XC)], "cy": YC[(i * 3 + j) % len(YC)], "data": str(rng.choice(["corr", "gauss", "scaled"])), "n": int(rng.choice([21, 30])), "p": int(rng.choice([2, 3, 4]))}
    for i in range(reps):
        yield {"kind": "fun", "cx": XC[i % len(XC)], "n": 20, "p": int(rng.choice([2, 3]))}
    for i in range(max(6, reps // 8)):
        yield {"kind": "dim", "cx": XC[i % len(XC)], "cy": YC[i % len(YC)]}
    for i in range(max(8, reps // 4)):
        yield {"kind": "names"}


def xin(X, how, rng):
    n = len(X)
    if how in ("f", "view", "readonly", "df", "dfidx", "dfint"):
        return data.as_container(X, how)
    if how == "reverse":
        return X[::-1, ::-1].copy()[::-1, ::-1]
    if how == "int":
        return X.astype(np.int64) if (X == np.round(X)).all() else X.copy()
    cols = ["z", "a", "m", "b", "q"][: X.shape[1]]
    if how == "dfdup":
        return pd.DataFrame(X.copy(), columns=cols, index=[7] * n)
    if how == "dfmixed":
        d = pd.DataFrame(X.copy(), columns=cols, index=rng.permutation(n))
        for k in cols:
            if (d[k] == np.round(d[k])).all():
                d[k] = d[k].astype(int)
        return d
    if how == "dfobject":
        return pd.DataFrame(X.copy(), columns=cols).astype(object)
    raise ValueError(how)


def yin(y, how, rng):
    n = len(y)
    if how == "col":
        return y[:, None].copy()
    if how == "fcol":
        return np.asfortranarray(np.column_stack([y, y]))[:, :1]
    if how == "series":
        return pd.Series(y.copy())
    if how == "seriesidx":
        return pd.Series(y.copy(), index=rng.permutation(n) + 100, name="resp")
    if how == "frame":
        return pd.DataFrame({"resp": y.copy()})
    if how == "frameidx":
        return pd.DataFrame({"resp": y.copy()}, index=["c%d" % i for i in range(n)])
    if how == "readonly":
        v = y.copy()
        v.setflags(write=False)
        return v
    if how == "view":
        return np.repeat(y, 2)[::2]
    if how == "int":
        return y.astype(np.int64) if (y == np.round(y)).all() else y.copy()
    raise ValueError(how)


def flat(r):
    return {k: (v if v.dtype.kind in "US" else v.reshape(-1)) for k, v in r.items()}


def run(case, mon):
    rng = data.rng_of(case)
    if case["kind"] == "fun":
        return functions(case, mon, rng)
    if case["kind"] == "dim":
        return structural(case, mon, rng)
    if case["kind"] == "names":
        return names(case, mon, rng)
    nm = case["name"]
    c = zoo.config(rng, nm, case["p"])
    X, y = zoo.make_data(rng, nm, case["n"], case["p"], case["data"] if nm != "sudire_opt" else "gauss")
    if case["cx"] in ("int", "dfmixed"):
        X = np.round(X / X.std(0) * 20)
        if case["cx"] == "dfmixed" and X.shape[1] > 1:
            X[:, 0] = X[:, 0] + 0.25
    if case["cy"] == "int":
        y = np.round(y / y.std() * 20)
    Xn = X[: case["n"] // 2] * (1.0 if case["cx"] in ("int",) else 1.01)
    lab = "%s %s" % (nm, c["kw"])

    def go(Xa, ya, Xb):
        e = zoo.build(c)
        zoo.fit(e, c, Xa, ya)
        return e, flat(zoo.results(e)), flat(zoo.outputs(e, c, Xb))

    try:
        e0, r0, o0 = go(X.copy(), y.copy(), Xn.copy())
        pert = [go(X * (1 + 1e-13 * rng.standard_normal(X.shape)), y * (1 + 1e-13 * rng.standard_normal(y.shape)), Xn.copy()) for _ in range(2)]
    except Exception as ex:
        mon.event("fit_failed")
        return
    tol = 1e-3 if nm in ("ppdire", "ppdire1", "sudire_opt") else 1e-6  # stopping rule of the optimisers
    if any(zoo.same(r1, r0, tol / 30) or zoo.same(o1, o0, tol / 30) for _, r1, o1 in pert):
        mon.event("skipped_sensitive")
        return
    memo = []

    def unstable():
        """do perturbations in the last digits alone move these results?"""
        if not memo:
            memo.append(False)
            for k in range(24):
                eps = 10.0 ** rng.uniform(-16, -12)
                try:
                    _, r1, o1 = go(X * (1 + eps * rng.standard_normal(X.shape)), y * (1 + eps * rng.standard_normal(y.shape)), Xn * (1 + eps * rng.standard_normal(Xn.shape)))
                except Exception:
                    memo[0] = True
                    break
                if zoo.same(r1, r0, tol / 100) or zoo.same(o1, o0, tol / 100):
                    memo[0] = True
                    break
            if memo[0]:
                mon.event("skipped_sensitive")
        return memo[0]

    for cx, cy, cl in ((case["cx"], None, "x"), (None, case["cy"], "y"), (case["cx"], case["cy"], "xy")):
        if "y" in cl and not zoo.needs_y(nm):
            continue
        what = "%s: X as %s, y as %s" % (lab, cx, cy)
        Xa = xin(X, cx, rng) if cx else X.copy()
        ya = yin(y, cy, rng) if cy else y.copy()
        Xb = xin(Xn, cx, rng) if cx else Xn.copy()
        clause = "fit_%s_%s" % (cl[-1], nm)
        try:
            e, r, o = go(Xa, ya, Xb)
        except Exception as ex:
            mon.ok(clause, False, "%s raised %s: %s" % (what, type(ex).__name__, ex))
            continue
        bad = zoo.same(r, r0, tol)
        if (bad or zoo.same(o, o0, tol)) and unstable():
            continue
        mon.ok(clause, not bad, "%s changes %s" % (what, bad))
        bo = zoo.same(o, o0, tol)
        mon.ok("new_data", not bo, "%s changes the new-data results %s" % (what, bo))
        if cx:
            mon.ok("x_" + cx, not bad and not bo, what)
        if cy:
            mon.ok("y_" + cy, not bad and not bo, what)
        if nm in zoo.REGRESSORS:
            mon.ok("shapes", np.asarray(e.predict(Xb)).size == len(Xn), "%s: predict returns %s values for %d cases" % (what, np.asarray(e.predict(Xb)).shape, len(Xn)))
    mon.seen(lab, X, case["cx"], case["cy"])


def functions(case, mon, rng):
    X = data.matrix(rng, case["n"], case["p"], "corr")
    if case["cx"] in ("int", "dfmixed"):
        X = np.round(X * 10)
    y = X @ rng.standard_normal(case["p"])
    f = [("versatile_scale", lambda a: versatile_scale(a)), ("gen_ss_covmat", lambda a: gen_ss_covmat(a))]
    f += [("gen_ss_pp " + k, lambda a, k=k: gen_ss_pp(a, fun=k)) for k in ("ss", "quad", "winsor", "ball", "shell", "linear_redescending")]
    f += [("versatile_scale %s %s" % (m, s), lambda a, m=m, s=s: versatile_scale(a, center=m, scale=s)) for m, s in (("mean", "std"), ("median", "mad"), ("kstepLTS", "scaleTau2"))]
    for what, g in f:
        want = np.asarray(g(X.copy()), float)
        got = np.asarray(mon.call("functions", "%s on %s" % (what, case["cx"]), g, xin(X, case["cx"], rng)), float)
        # what the last digits of the data decide (cases exactly at a cut-off, stopping rules of optimisers) is left open
        sc = np.abs(want).max() + 1e-300
        open_ = np.zeros(want.shape, bool)
        if got.shape == want.shape and np.abs(got - want).max() > 1e-10 * sc:
            for k in range(24):
                pert = np.asarray(g(X * (1 + 10.0 ** rng.uniform(-16, -13) * rng.standard_normal(X.shape))), float)
                open_ |= ~(np.abs(pert - want) <= 1e-11 * sc)
            mon.event("open_cells", int(open_.sum()))
        if open_.any():
            got, want = np.where(open_, 0, got), np.where(open_, 0, want)
        mon.close("functions", got, want, rtol=1e-9, scale=sc, msg="%s on %s" % (what, case["cx"]))
    yp = y + rng.standard_normal(len(y))
    cy = YC[int(rng.integers(len(YC)))]
    if cy == "int":
        y, yp = np.round(y), np.round(yp)
    want = robust_loss(y.copy(), yp.copy())
    mon.close("functions", mon.call("functions", "robust_loss on %s" % cy, robust_loss, yin(y, cy, rng), yin(yp, cy, rng)), want, rtol=1e-9, msg="robust_loss on %s" % cy)
    mon.seen("fun", X, case["cx"])


def structural(case, mon, rng):
    X = rng.standard_normal((50, 3))
    if case["cx"] in ("int", "dfmixed"):
        X = np.round(X * 20)
    y = X[:, 0] + 0.1 * rng.standard_normal(50)
    if case["cy"] == "int":
        y = np.round(y * 10)
    np.random.seed(3)
    want = estimate_structural_dim("sir", X, y, 4, n_slices=4)
    np.random.seed(3)
    got = mon.call("structural_dim", "estimate_structural_dim %s %s" % (case["cx"], case["cy"]), estimate_structural_dim, "sir", xin(X, case["cx"], rng), yin(y, case["cy"], rng), 4, n_slices=4)
    mon.ok("structural_dim", got[0] == want[0], "dimension %s, expected %s" % (got[0], want[0]))
    mon.close("structural_dim", got[1], want[1], rtol=1e-9)
    mon.seen("dim", X)


def names(case, mon, rng):
    """column names only label the result"""
    from api import snipls, sprm

    n, p = 30, 5
    X = rng.standard_normal((n, p))
    y = X[:, 1] * 3 + X[:, 3] + 0.1 * rng.standard_normal(n)
    cols = ["zeta", "alpha", "mu", "beta", "eps"]
    for cls in (sprm, snipls):
        kw = dict(n_components=1, eta=float(rng.choice([0.3, 0.6, 0.8])), verbose=False)
        a = cls(**kw).fit(X.copy(), y.copy())
        for lab, e, Xa in (("columns=True", cls(columns=True, **kw), pd.DataFrame(X, columns=cols)), ("list", cls(columns=list(cols), **kw), X.copy()), ("array", cls(columns=np.array(cols), **kw), X.copy()),
                           ("Index", cls(columns=pd.Index(cols), **kw), X.copy()), ("frame, list", cls(columns=list(cols), **kw), pd.DataFrame(X))):
            mon.call("column_names", "%s %s" % (cls.__name__, lab), e.fit, Xa, y.copy())
            mon.close("column_names", e.coef_, a.coef_, rtol=1e-10, msg="%s %s" % (cls.__name__, lab))
            keep = np.where(np.abs(np.asarray(a.coef_).reshape(-1)) > 0)[0]
            got = sorted(str(s) for s in np.ravel(np.asarray(e.colret_, object)))
            mon.ok("column_names", got == sorted(np.array(cols)[keep]), "%s %s: retained %s, expected %s" % (cls.__name__, lab, got, np.array(cols)[keep]))
    mon.seen("names", X)
