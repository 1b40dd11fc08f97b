"""Invalid input is refused, valid input at the edge is accepted."""
import numpy as np
import pandas as pd

import data
import ipoptstub
import zoo
from api import (GenSpatialSignPreProcessor, VersatileScaler, Wrapper, capi, dicomo, ipw, minimize_ipopt, ppdire, ppdire_plot, pre, rm, snipls, sprm,
                 sprm_plot, sudire, sudire_plot, versatile_scale)

RULE = (
    "fault injection at the interface: for every estimator with random valid settings one documented precondition is broken (settings out of range, unknown names, "
    "disagreeing numbers of cases, wrong numbers of columns in new data, missing responses, use before fitting, unknown parameters) and the call must be refused; the "
    "same call with the nearest valid value must be accepted; non-trivial = a distinct injected fault"
)
ASSUMPTIONS = ["any exception counts as a refusal"]
CLAUSES = ["settings_sprm", "settings_snipls", "settings_rm", "settings_ppdire", "settings_sudire", "settings_dicomo", "settings_capi", "settings_scaler", "rows", "columns", "unfitted",
           "unknown_parameter", "edge_accepted", "missing_response", "plots", "solver", "empty", "names", "set_later", "functions"]
Z = "settings_"


def gen(rng, tier):
    reps = 60 if tier == "quick" else 1500
    for i in range(reps):
        for k in ("sprm", "snipls", "rm", "ppdire", "sudire", "dicomo", "capi", "scaler", "solver"):
            yield {"kind": k, "n": int(rng.choice([12, 20, 30])), "p": int(rng.choice([2, 3, 5]))}
    for i in range(reps * 2):
        for nm in zoo.NAMES:
            if nm not in ("dicomo1", "capi"):
                yield {"kind": "data", "name": nm, "n": int(rng.choice([15, 20, 30])), "p": int(rng.choice([2, 3, 4]))}


def run(case, mon):
    rng = data.rng_of(case)
    k = case["kind"]
    if k == "solver":
        return solver(case, mon, rng)
    if k == "data":
        return faulty_data(case, mon, rng)
    n, p = case["n"], case["p"]
    X = data.matrix(rng, n, p, "corr")
    y = data.response(rng, X, "linear", 0.3)
    if k in ("sprm", "rm"):
        cls = {"sprm": sprm, "rm": rm}[k]
        u = float(rng.uniform(0.001, 3))
        bad = [("fun", {"fun": str(rng.choice(["hampel", "huber", "Tukey", ""]))}), ("probp1", {"probp1": 1 + u}), ("probp1", {"probp1": -u}), ("probp1", {"probp1": 0}),
               ("probp order", {"fun": "Hampel", "probp1": 0.98, "probp2": 0.975, "probp3": 0.999}), ("probp order", {"fun": "Hampel", "probp1": 0.95, "probp2": 0.9995, "probp3": 0.999}),
               ("probp equal", {"fun": "Hampel", "probp1": 0.95, "probp2": 0.95, "probp3": 0.999}), ("probp equal", {"fun": "Hampel", "probp1": 0.95, "probp2": 0.999, "probp3": 0.999}),
               ("probp3", {"fun": "Hampel", "probp3": 1 + u})]
        good = [{"fun": "Hampel", "probp1": 0.9, "probp2": 0.901, "probp3": 0.999999}, {"fun": "Huber", "probp1": 0.99, "probp2": 0.5, "probp3": 0.1}, {"fun": "Fair", "probp1": 0.5}]
        if k == "sprm":
            bad += [("eta", {"eta": 1.0}), ("eta", {"eta": 1 + u}), ("eta", {"eta": -u}), ("components", {"n_components": 0}), ("components", {"n_components": -int(1 + 3 * u)}),
                    ("components", {"n_components": min(n, p) + int(rng.integers(1, 4))}), ("columns", {"columns": True})]
            good += [{"eta": 0.0}, {"eta": 0.999}, {"n_components": min(n, p), "eta": 0.0}, {"n_components": 1}]
        w, kw = bad[int(rng.integers(len(bad)))]
        mon.rejects(Z + k, "%s(%s)" % (k, kw), lambda: cls(verbose=False, **kw).fit(X.copy(), y.copy()))
        g = good[int(rng.integers(len(good)))]
        mon.call("edge_accepted", "%s(%s)" % (k, g), lambda: cls(verbose=False, **g).fit(X.copy(), y.copy()))
        # the check also applies to settings changed after construction
        e = cls(verbose=False)
        e.set_params(**kw)
        mon.rejects("set_later", "%s().set_params(%s)" % (k, kw), lambda: e.fit(X.copy(), y.copy()))
        mon.seen(k, repr(kw), n, p)
        if k == "sprm":
            e = sprm(verbose=False).fit(X, y)
            mon.rejects(Z + k, "valscore flag", e.valscore, X, y, str(rng.choice(["weigthed", "robust", ""])))
            Xz = X.copy()
            Xz[:, 0] = 3.0
            mon.rejects(Z + k, "all components on constant columns", lambda: sprm(n_components=p, eta=0.0, verbose=False).fit(Xz.copy(), y.copy()))
    elif k == "snipls":
        mon.rejects(Z + k, "columns=True on an array", lambda: snipls(columns=True, verbose=False).fit(X.copy(), y.copy()))
        mon.call("edge_accepted", "snipls columns=True on a frame", lambda: snipls(columns=True, verbose=False).fit(pd.DataFrame(X), y.copy()))
        nm = str(rng.choice(["avg", "Mean", "trimmed"]))
        mon.rejects("names", "snipls(centre=%s)" % nm, lambda: snipls(centre=nm, verbose=False).fit(X.copy(), y.copy()))
        mon.rejects("names", "snipls(scale=%s)" % nm, lambda: snipls(scale=nm, verbose=False).fit(X.copy(), y.copy()))
        u = float(rng.uniform(0.001, 3))
        bad = [{"eta": 1.0}, {"eta": 1 + u}, {"eta": -u}, {"n_components": 0}, {"n_components": -int(1 + 3 * u)}, {"n_components": min(n, p) + int(rng.integers(1, 4))}]
        kw = bad[int(rng.integers(len(bad)))]
        mon.rejects(Z + k, "snipls(%s)" % kw, lambda: snipls(verbose=False, **kw).fit(X.copy(), y.copy()))
        e = snipls(verbose=False)
        if rng.random() < 0.5:
            e.fit(X.copy(), y.copy())
        mon.rejects("set_later", "snipls().set_params(%s)" % kw, lambda: e.set_params(**kw).fit(X.copy(), y.copy()))
        good = [{"eta": 0.0}, {"eta": 0.999}, {"n_components": min(n, p), "eta": 0.0}, {"n_components": 1}]
        g = good[int(rng.integers(len(good)))]
        mon.call("edge_accepted", "snipls(%s)" % g, lambda: e.set_params(**dict({"eta": 0.5, "n_components": 1}, **g)).fit(X.copy(), y.copy()))
        mon.seen(k, X)
    elif k == "ppdire":
        kw = dict(projection_index=dicomo, pi_arguments={"mode": "cov"}, optimizer_options={"maxiter": 5}, verbose=False)
        which = int(rng.integers(5))
        if which == 4:
            h = -int(rng.integers(0, 4))
            one = dict(kw, pi_arguments={"mode": "var"})
            if rng.random() < 0.5:
                mon.rejects(Z + k, "ppdire(n_components=%d)" % h, lambda: ppdire(n_components=h, **kw).fit(X.copy(), y.copy()))
                mon.rejects("set_later", "ppdire().set_params(n_components=%d)" % h, lambda: ppdire(n_components=1, **kw).set_params(n_components=h).fit(X.copy(), y.copy()))
            else:
                mon.rejects(Z + k, "one-block ppdire(n_components=%d)" % h, lambda: ppdire(n_components=h, **one).fit(X.copy()))
                mon.rejects("set_later", "one-block ppdire().set_params(n_components=%d)" % h, lambda: ppdire(n_components=1, **one).set_params(n_components=h).fit(X.copy()))
            c = str(rng.choice(["avg", "Mean", "trimmed"]))
            mon.rejects("set_later", "ppdire().set_params(center=%s)" % c, lambda: ppdire(n_components=1, **kw).set_params(center=c).fit(X.copy(), y.copy()))
        elif which == 0:
            mon.rejects(Z + k, "ppdire(center)", lambda: ppdire(center=str(rng.choice(["l1median", "avg", "None"])), **kw))
        elif which == 1:
            h = min(n, p) + int(rng.integers(1, 4))
            mon.rejects(Z + k, "ppdire(n_components=%d) on %dx%d" % (h, n, p), lambda: ppdire(n_components=h, **kw).fit(X.copy(), y.copy()))
        elif which == 2:
            mon.rejects(Z + k, "fit(h=%d)" % (p + 1), lambda: ppdire(n_components=1, **kw).fit(X.copy(), y.copy(), h=min(n, p) + 1))
        else:
            mon.rejects(Z + k, "unknown index mode", lambda: ppdire(**dict(kw, pi_arguments={"mode": "covv"})).fit(X.copy(), y.copy()))
        mon.call("edge_accepted", "ppdire(n_components=p)", lambda: ppdire(n_components=min(p, 2), **kw).fit(X.copy(), y.copy()))
        mon.rejects("missing_response", "two-block index without response", lambda: ppdire(**kw).fit(X.copy()))
        mon.rejects("plots", "ppdire_plot of something else", ppdire_plot, sprm(verbose=False), ["b"])
        mon.seen(k, which, X)
    elif k == "sudire":
        which = int(rng.integers(5))
        if which == 3:
            m = str(rng.choice(["sir", "save", "dr"]))
            ns = int(rng.choice([0, 1, -2, n + 1, 2 * n]))
            mon.rejects(Z + k, "sudire(%s, n_slices=%d) on %d cases" % (m, ns, n), lambda: sudire(sudiremeth=m, n_components=1, n_slices=ns, verbose=False).fit(X.copy(), y.copy()))
            mon.rejects("set_later", "sudire(%s).set_params(n_slices=%d) on %d cases" % (m, ns, n), lambda: sudire(sudiremeth=m, n_components=1, n_slices=3, verbose=False).set_params(n_slices=ns).fit(X.copy(), y.copy()))
            rt = str(rng.choice(["categorical", "Continuous", ""]))
            mon.rejects(Z + k, "sudire(%s, response_type=%s)" % (m, rt), lambda: sudire(sudiremeth=m, n_components=1, n_slices=3, response_type=rt, verbose=False).fit(X.copy(), y.copy()))
        elif which == 4:
            m = str(rng.choice(["sir", "save", "dr", "phd", "iht", "dcov-sdr", "mdd-sdr"]))
            h = -int(rng.integers(0, 3))
            mon.rejects(Z + k, "sudire(%s, n_components=%d)" % (m, h), lambda: sudire(sudiremeth=m, n_components=h, n_slices=3, verbose=False).fit(X.copy(), y.copy()))
            later = [{"n_components": h}, {"n_components": min(n, p) + 1}, {"center": "avg"}, {"sudiremeth": "pfc"}, {"response_type": "foo"}]
            kw = later[int(rng.integers(len(later)))]
            if "response_type" in kw:
                m = "sir"
            mon.rejects("set_later", "sudire(%s).set_params(%s)" % (m, kw), lambda: sudire(sudiremeth=m, n_components=1, n_slices=3, verbose=False).set_params(**kw).fit(X.copy(), y.copy()))
        elif which == 0:
            mon.rejects(Z + k, "sudire(sudiremeth)", lambda: sudire(sudiremeth=str(rng.choice(["SIR", "pfc", "sirr", ""]))))
        elif which == 1:
            mon.rejects(Z + k, "sudire(center)", lambda: sudire(sudiremeth="sir", center=str(rng.choice(["l1median", "avg", "None"]))))
        else:
            for m in ("sir", "save", "dr", "phd", "iht", "dcov-sdr"):
                h = min(n, p) + int(rng.integers(1, 3))
                mon.rejects(Z + k, "sudire(%s, n_components=%d) on %dx%d" % (m, h, n, p), lambda: sudire(sudiremeth=m, n_components=h, verbose=False).fit(X.copy(), y.copy()))
        mon.call("edge_accepted", "sudire(save, n_components=p)", lambda: sudire(sudiremeth="save", n_components=p, n_slices=2, verbose=False).fit(X.copy(), y.copy()))
        mon.rejects("plots", "sudire_plot of something else", sudire_plot, sprm(verbose=False), ["b"])
        mon.rejects("plots", "sprm_plot of something else", sprm_plot, sudire(sudiremeth="sir"), ["b"])
        mon.seen(k, which, X)
    elif k == "dicomo":
        which = int(rng.integers(6))
        e = str(rng.choice(["arithmetic", "distance"]))
        if which == 0:
            mon.rejects(Z + k, "dicomo(mode)", lambda: dicomo(mode=str(rng.choice(["variance", "COV", "", "dcov"]))))
        elif which == 1:
            mon.rejects(Z + k, "dicomo(est)", lambda: dicomo(est=str(rng.choice(["Distance", "rank", ""])), mode="var"))
        elif which == 2:
            mon.rejects(Z + k, "dicomo(center)", lambda: dicomo(center=str(rng.choice(["l1median", "Mean", "None"])), mode="var"))
        elif which == 3:
            mon.rejects(Z + k, "arithmetic mdd", lambda: dicomo(est="arithmetic", mode=str(rng.choice(["mdd", "mdc"]))))
        elif which == 4:
            later = [{"mode": str(rng.choice(["variance", "COV", "dcov"]))}, {"est": str(rng.choice(["Distance", "rank"]))}, {"center": str(rng.choice(["l1median", "Mean"]))},
                     {"est": "arithmetic", "mode": str(rng.choice(["mdd", "mdc"]))}]
            kw = later[int(rng.integers(len(later)))]
            d = dicomo(est="distance" if "mode" in kw and "est" in kw else "arithmetic", mode="cov")
            if rng.random() < 0.5:
                d.fit(X[:, :1], y=y)
            mon.rejects("set_later", "dicomo(mode=cov).set_params(%s)" % kw, lambda: d.set_params(**kw).fit(X[:, :1], y=y))
        modes = ["cov", "corr", "continuum", "com"] + (["cos", "cok", "M3"] if e == "arithmetic" else ["mdd", "mdc"])
        m = modes[int(rng.integers(len(modes)))]
        mon.rejects("missing_response", "dicomo(%s, %s) without y" % (e, m), lambda: dicomo(est=e, mode=m).fit(X[:, :1]))
        q = int(rng.integers(1, 4))
        mon.rejects("rows", "dicomo(%s, %s) with %d/%d cases" % (e, m, n, n - q), lambda: dicomo(est=e, mode=m).fit(X[:, :1], y=y[:-q]))
        mon.rejects("rows", "dicomo(%s, %s) with %d/%d cases" % (e, m, n - q, n), lambda: dicomo(est=e, mode=m).fit(X[:-q, :1], y=y))
        mon.rejects("empty", "dicomo on no data", lambda: dicomo(est=e, mode="var").fit(np.zeros((0, 1))))
        mon.rejects("empty", "dicomo on no response", lambda: dicomo(est=e, mode=m).fit(X[:, :1], y=np.zeros((0,))))
        mon.call("edge_accepted", "dicomo(%s, %s)" % (e, m), lambda: dicomo(est=e, mode=m).fit(X[:, :1], y=y))
        mon.seen(k, which, e, m, X)
    elif k == "capi":
        a = dict(projection_index=dicomo, pi_arguments={"mode": "com"})
        d = int(rng.choice([5, 6, 9]))
        mon.rejects(Z + k, "capi(max_degree=%d)" % d, lambda: capi(max_degree=d, **a))
        d = int(rng.choice([1, 0, -2]))
        mon.rejects(Z + k, "capi(max_degree=%d)" % d, lambda: capi(max_degree=d, **a).fit(X[:, :1], y))
        d = int(rng.choice([5, 6, 9, 1, 0, -2]))
        mon.rejects("set_later", "capi.set_params(max_degree=%d)" % d, lambda: capi(max_degree=3, **a).set_params(max_degree=d).fit(X[:, :1], y))
        mon.rejects("rows", "capi", lambda: capi(max_degree=3, **a).fit(X[:, :1], y[:-1]))
        for d in (2, 3, 4):
            mon.call("edge_accepted", "capi(max_degree=%d)" % d, lambda: capi(max_degree=d, **a).fit(X[:, :1], y))
        mon.seen(k, d, X)
    elif k == "scaler":
        t = [1, 1.0, float(rng.uniform(1, 5)), -float(rng.uniform(1e-6, 3)), 99][int(rng.integers(5))]
        mon.rejects(Z + k, "VersatileScaler(trimming=%s)" % t, lambda: VersatileScaler(trimming=t).fit(X))
        mon.rejects(Z + k, "versatile_scale(trimming=%s)" % t, lambda: versatile_scale(X, center="mean", scale="std", trimming=t))
        for f in ("mean", "std"):
            mon.rejects("functions", "%s(trimming=%s)" % (f, t), lambda: getattr(pre, f)(X, trimming=t))
        nm = str(rng.choice(["avg", "Mean", "kstep", "robust"]))
        mon.rejects("names", "center=%s" % nm, lambda: VersatileScaler(center=nm).fit(X))
        mon.rejects("names", "scale=%s" % nm, lambda: VersatileScaler(scale=nm).fit(X))
        mon.rejects("names", "fun=%s" % nm, lambda: GenSpatialSignPreProcessor(fun=nm).fit(X))
        g = float(rng.choice([0.0, 0.01, 0.3, 0.45]))
        mon.call("edge_accepted", "VersatileScaler(trimming=%s)" % g, lambda: VersatileScaler(trimming=g).fit(X))
        mon.seen(k, t, X)


def faulty_data(case, mon, rng):
    nm, n, p = case["name"], case["n"], case["p"]
    c = zoo.config(rng, nm, p)
    X, y = zoo.make_data(rng, nm, n, p, "corr" if nm != "sudire_opt" else "gauss")
    lab = "%s %s" % (nm, c["kw"])
    q = int(rng.integers(1, n - 3))
    frame = bool(rng.random() < 0.3)
    fx = (lambda a: pd.DataFrame(a)) if frame and not zoo.univariate(nm) else (lambda a: a.copy())
    shape = int(rng.integers(3))
    fy = [lambda a: a.copy(), lambda a: a[:, None].copy(), lambda a: pd.Series(a)][shape if nm != "dicomo2" else 0]
    if zoo.needs_y(nm):
        mon.rejects("rows", "%s with %d cases and %d responses" % (lab, n, n - q), lambda: zoo.fit(zoo.build(c), c, fx(X), fy(y[:-q])))
        mon.rejects("rows", "%s with %d cases and %d responses" % (lab, n - q, n), lambda: zoo.fit(zoo.build(c), c, fx(X[:-q]), fy(y)))
        mon.rejects("rows", "%s with %d cases and %d responses" % (lab, n, 2 * n), lambda: zoo.fit(zoo.build(c), c, fx(X), fy(np.append(y, y))))
    if hasattr(zoo.build(c), "set_params"):
        mon.rejects("unknown_parameter", "%s.set_params(bogus)" % nm, lambda: zoo.build(c).set_params(bogus=3))
        e = zoo.build(c)
        flat = sorted(k for k, v in e.get_params(deep=False).items() if isinstance(v, (int, float, str)))
        if flat:
            q2 = flat[int(rng.integers(len(flat)))]
            mon.rejects("unknown_parameter", "%s.set_params(%s__bogus)" % (nm, q2), lambda: e.set_params(**{q2 + "__bogus": 3}))
    if nm in zoo.REGRESSORS + zoo.TRANSFORMERS + ["gss"]:
        for m in ("predict", "transform", "inverse_transform"):
            e = zoo.build(c)
            if hasattr(e, m) and not (nm == "ppdire1" and m == "predict"):
                mon.rejects("unfitted", "%s.%s before fit" % (nm, m), lambda: getattr(e, m)(X.copy()))
    if nm in ("dicomo2", "gss"):
        mon.seen(lab, q)
        return
    est = zoo.build(c)
    try:
        zoo.fit(est, c, X.copy(), y.copy())
    except Exception:
        mon.event("fit_failed")
        return
    meths = [m for m in ("predict", "transform", "inverse_transform", "weightnewx") if hasattr(est, m) and not (nm == "ppdire1" and m == "predict")]
    for wrong in (X[:5, :-1], np.hstack([X, X[:, :1]])[:5], np.hstack([X, X])[:5], np.hstack([X, X[:, :1]])[:1], np.ascontiguousarray(np.vstack([X, X])[: p + 2].T), np.ascontiguousarray(np.vstack([X, X])[: max(p - 1, 1)].T)):
        if wrong is None:
            continue
        for m in meths:
            if nm in ("scaler", "wrapper") and 1 in wrong.shape:
                continue  # one row of several values is read as one column, and such a column of p values as one case
            mon.rejects("columns", "%s fitted on %d columns, %s on %d" % (nm, p, m, wrong.shape[1]), lambda: getattr(est, m)(fx(wrong)))
    for m in meths:
        mon.call("edge_accepted", "%s.%s on the right columns" % (nm, m), lambda: getattr(est, m)(fx(X[:5])))
    mon.seen(lab, q, X)


def solver(case, mon, rng):
    f = lambda x: float(np.sum(np.square(np.asarray(x) - 1)))
    x0 = rng.standard_normal(3)
    mon.rejects("solver", "hessian", lambda: minimize_ipopt(f, x0, hess=lambda x: np.eye(3)))
    mon.rejects("solver", "hessian product", lambda: minimize_ipopt(f, x0, hessp=lambda x, p: p))
    mon.rejects("solver", "constraint type", lambda: minimize_ipopt(f, x0, constraints={"type": str(rng.choice(["equality", "le", ""])), "fun": lambda x: x[0]}))
    mon.rejects("solver", "jac", lambda: minimize_ipopt(f, x0, jac="2-point"))
    mon.call("edge_accepted", "minimize_ipopt", lambda: minimize_ipopt(f, x0, constraints={"type": "ineq", "fun": lambda x: x[0]}))
    try:
        ipw.CYIPOPT_INSTALLED = False
        mon.rejects("solver", "missing solver", lambda: minimize_ipopt(f, x0))
    finally:
        ipoptstub.install(ipw)
    mon.seen("solver", x0)
