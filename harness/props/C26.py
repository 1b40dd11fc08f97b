"""An optional setting that is left out has its documented default, in every combination with other settings."""
import numpy as np
from scipy.stats import norm
from sklearn.metrics import mean_squared_error

import data
import zoo
from props import C24
from api import (GenSpatialSignPreProcessor, VersatileScaler, capi, dicomo, dutil, estimate_structural_dim, gen_ss_covmat, gen_ss_pp, gss, minimize_ipopt, msup, ppdire, pre, rm,
                 robust_loss, snipls, sprm, sprm_plot, sprm_plot_cv, ppdire_plot, sudire_plot, sudire, sutil, versatile_scale)

RULE = (
    "every class and function with optional settings is called twice on the same random data: once with all settings spelled out (each at its documented default or "
    "at a random other value) and once with a random subset of the defaults left out; all results are compared bit for bit; constructors are also called by position; "
    "non-trivial = a distinct subset of omitted settings per entry point"
)
ASSUMPTIONS = ["the documented default is the one in the published signature or, for keyword settings of fit, in its documentation"]
CLAUSES = ["omitted_estimator", "omitted_fit", "omitted_function", "omitted_plot", "positional", "unset_is_default"]

NDT = {"maxiter": 100000}
# constructor settings: in documented order, with the default and other valid values
CTOR = {
    "sprm": (sprm, [("n_components", 1, [2]), ("eta", 0.5, [0.0, 0.3]), ("fun", "Hampel", ["Huber", "Fair"]), ("probp1", 0.95, [0.9]), ("probp2", 0.975, [0.98]), ("probp3", 0.999, [0.995]),
                    ("centre", "median", ["mean", "l1median"]), ("scale", "mad", ["std"]), ("verbose", True, [False]), ("maxit", 100, [2, 30]), ("tol", 0.01, [0.2, 1e-4]),
                    ("start_cutoff_mode", "specific", ["other"]), ("start_X_init", "pcapp", ["no"]), ("columns", False, [["a", "b", "c", "d"]]), ("copy", True, [False])]),
    "snipls": (snipls, [("eta", 0.5, [0.0, 0.3]), ("n_components", 1, [2]), ("verbose", True, [False]), ("columns", False, [["a", "b", "c", "d"]]), ("centre", "mean", ["median"]),
                        ("scale", "None", ["std", "mad"]), ("copy", True, [False])]),
    "rm": (rm, [("fun", "Hampel", ["Huber", "Fair"]), ("probp1", 0.95, [0.9]), ("probp2", 0.975, [0.98]), ("probp3", 0.999, [0.995]), ("centre", "median", ["mean", "l1median"]),
                ("scale", "mad", ["std", "None"]), ("start_cutoff_mode", "specific", ["other"]), ("verbose", True, [False]), ("maxit", 100, [2, 30]), ("tol", 0.01, [0.2, 1e-4]), ("copy", True, [False])]),
    "scaler": (VersatileScaler, [("center", "mean", ["median", "l1median", "None"]), ("scale", "std", ["mad", "None"]), ("trimming", 0, [0.1, 0.2])]),
    "gss": (GenSpatialSignPreProcessor, [("center", "l1median", ["mean", "median"]), ("fun", "linear_redescending", ["ss", "quad", "ball"])]),
    "ppdire": (ppdire, [("projection_index", dicomo, []), ("pi_arguments", {"mode": "cov", "est": "arithmetic", "center": "mean"}, []), ("n_components", 1, [2]), ("trimming", 0, [0.1]), ("alpha", 1, [0.5, 2]),
                        ("optimizer", "SLSQP", ["IPOPT"]), ("optimizer_options", {"maxiter": 100000}, [{"maxiter": 3}]), ("optimizer_constraints", None, []), ("regopt", "OLS", ["robust", "quantile"]),
                        ("center", "mean", ["median"]), ("center_data", True, [False]), ("scale_data", True, [False]), ("whiten_data", False, [True]), ("square_pi", False, []), ("compression", False, [True]),
                        ("copy", True, [False]), ("verbose", True, [False]), ("return_scaling_object", True, [False])]),
    "sudire": (sudire, [("sudiremeth", "dcov-sdr", ["sir", "save", "dr", "phd"]), ("n_components", 2, [1]), ("trimming", 0, [0.1]), ("optimizer_options", {"max_iter": 1000}, [{"max_iter": 5}]),
                        ("optimizer_constraints", None, []), ("optimizer_arguments", None, []), ("optimizer_start", None, []), ("center_data", True, [False]), ("center", "mean", ["median"]),
                        ("scale_data", True, [False]), ("whiten_data", False, []), ("compression", False, [True]), ("n_slices", 6, [4, 5]), ("dmetric", "euclidean", ["cityblock"]), ("fit_ols", True, []),
                        ("copy", True, [False]), ("response_type", "continuous", []), ("verbose", True, [False]), ("return_scaling_object", True, [False])]),
    "dicomo": (dicomo, [("est", "arithmetic", ["distance"]), ("mode", "mom", ["var", "cov", "corr", "std"]), ("center", "mean", ["median"])]),
    "capi": (capi, [("max_degree", 2, [3, 4]), ("projection_index", dicomo, []), ("pi_arguments", {}, [{"center": "mean"}]), ("weights", [1, 1, 1, -1, -1, -1], [[1, .5, .2, -.1, -.3, -.2]]), ("centring", False, []),
                    ("scaling", True, [False]), ("options", "all", [1, [1, 2]])]),
}
DF = [("trimming", 0, [0.1, 0.25]), ("biascorr", False, [True]), ("alpha", 1, [0.5, 2]), ("calcmode", "fast", ["naive"]), ("order", 2, [3, 4]), ("option", 1, [2]), ("dmetric", "euclidean", [])]
DFS = DF + [("standardized", True, [False]), ("Fisher", True, [False])]
# settings of fit; (entry, settings)
FIT = {
    "dicomo mom": DF, "dicomo com": DF, "dicomo var": DF, "dicomo cov": DF, "dicomo corr": DF, "dicomo continuum": DF, "dicomo skew": DF, "dicomo kurt": DF + [("Fisher", True, [False])],
    "dicomo cos": DFS, "dicomo cok": DFS, "dicomo M3": DF + [("standardized", False, [])], "dicomo dist cov": DF, "dicomo dist var": DF, "dicomo dist corr": DF, "dicomo mdd": DF, "dicomo mdc": DF, "capi": [("trimming", 0, [0.1]), ("biascorr", False, [True])],
    "ppdire": [("h", 1, [2]), ("dmetric", "euclidean", []), ("mixing", False, [True]), ("biascorr", False, [True])],
    "ppdire quantile": [("quantile", 0.5, [0.25]), ("biascorr", False, [True])],
    "ppdire robust": [("fun", "Hampel", ["Huber", "Fair"]), ("probp1", 0.95, [0.9]), ("probp2", 0.975, [0.98]), ("probp3", 0.99, [0.995])],
    "sudire": [("dmetric", "euclidean", ["cityblock"]), ("biascorr", False, []), ("flag", "two-block", []), ("is_distance_mat", False, [])],
}
S3 = [("ytype", "continuous", []), ("center_data", True, [False]), ("scale_data", True, [False])]
FUN = {
    "mean": [("trimming", 0, [0.1])], "std": [("trimming", 0, [0.1])], "mad": [("c", norm.ppf(0.75), [1.0])], "kstepLTS": [("maxit", 5, [1, 2]), ("tol", 1e-10, [1.0])],
    "l1median": [("method", "SLSQP", ["BFGS"]), ("tol", 1e-8, [1e-2]), ("options", {"maxiter": 2000}, [])], "scaleTau2": [("c1", 4.5, [3.0]), ("c2", 3, [2.5]), ("consistency", True, [False, "finiteSample"])],
    "wrap_univ": [("scale", False, [True]), ("locX", None, []), ("scaleX", None, [])], "versatile_scale": [("center", "l1median", ["mean", "median"]), ("scale", "mad", ["std"]), ("trimming", 0, [])],
    "gen_ss_pp": [("center", "l1median", ["mean"]), ("fun", "linear_redescending", ["ss", "winsor"])], "gen_ss_covmat": [("center", "kstepLTS", ["mean"]), ("fun", "linear_redescending", ["shell", "quad"])],
    "robust_loss": [("lfun", mean_squared_error, []), ("fun", msup.Hampel, [msup.Huber, msup.Fair]), ("probct", norm.ppf(0.975), [1.0]), ("hampelb", norm.ppf(0.99), [2.2]), ("hampelr", norm.ppf(0.999), [2.5])],
    "SIR": S3, "SAVE": S3, "DR": S3, "PHD": S3[1:], "IHT": S3[1:],
    "difference_divergence": [("trimming", 0, [0.1]), ("biascorr", False, [True]), ("center", "mean", ["median"]), ("dmetric", "euclidean", [])],
    "distance_matrix_centered": [("trimming", 0, [0.1]), ("biascorr", False, [True]), ("center", "mean", ["median"]), ("dmetric", "euclidean", ["cityblock"])],
    "distance_moment": [("trimming", 0, [0.1]), ("biascorr", False, []), ("center", "mean", ["median"]), ("order", 2, [3, 4]), ("option", 1, [2])],
    "double_center_flex": [("center", "mean", ["median"]), ("trimming", 0, [0.1]), ("biascorr", False, [True])],
    "U_inner": [("trimming", 0, [])], "D_inner": [("trimming", 0, [])],
    "minimize_ipopt": [("args", (), []), ("kwargs", None, []), ("jac", None, []), ("bounds", None, [[(0, 1)] * 2]), ("constraints", (), []), ("tol", None, [1e-4]), ("options", None, [{"maxiter": 4}])],
    "estimate_structural_dim": [("n_slices", 6, [4]), ("center_data", True, [False]), ("scale_data", True, [False]), ("center", "mean", ["median"])],
}

LEG = ("legend_pos", "lower right", ["upper left"])
VAL = ("onlyval", False, [True])
NM = [("names", [], []), ("namesv", [], []), ("title", [], ["A title"])]
PLOT = {
    "sprm yyp": [("ytruev", [], []), ("Xn", [], []), ("label", [], ["lab"])] + NM + [LEG, VAL], "sprm projections": [("Xn", [], []), ("label", [], ["lab"]), ("components", [0, 1], [[1, 0]])] + NM + [LEG, VAL],
    "sprm coeffs": [("entity", "coef_", ["coef_scaled_"]), ("truncation", 0, [0.3]), ("columns", [], [["a", "b", "c", "d"]]), ("title", [], ["A title"])],
    "sprm caseweights": [("Xn", [], []), ("label", [], ["lab"])] + NM + [LEG, VAL, ("mode", "overall", ["x", "y"])], "sprm cv": [("title", "SPRM Cross-Validation Contour Plot", ["A title"])],
    "ppdire yyp": [("ytruev", [], []), ("Xn", [], []), ("label", [], ["lab"])] + NM + [LEG, VAL], "ppdire projections": [("Xn", [], []), ("label", [], ["lab"]), ("components", [0, 1], [[1, 0]])] + NM + [LEG, VAL],
    "sudire yyp": [("ytruev", [], []), ("Xn", [], []), ("label", [], ["lab"])] + NM + [LEG, VAL], "sudire projections": [("Xn", [], []), ("label", [], ["lab"]), ("components", [0, 1], [[1, 0]])] + NM + [LEG, VAL],
}


def gen(rng, tier):
    reps = 60 if tier == "quick" else 900
    for i in range(reps):
        for k in CTOR:
            yield {"kind": "ctor", "name": k, "n": int(rng.choice([16, 24])), "p": 4}
        for k in FIT:
            yield {"kind": "fit", "name": k, "n": int(rng.choice([16, 24])), "p": 3}
        if i % 4 == 0:
            for k in PLOT:
                yield {"kind": "plot", "name": k, "n": 16, "p": 4}
        for k in FUN:
            yield {"kind": "fun", "name": k, "n": int(rng.choice([16, 25, 40, 90])), "p": int(rng.choice([2, 3, 4]))}


def draw(rng, table):
    """(all settings spelled out, the same with some defaults left out)"""
    full, part, left = {}, {}, []
    other = rng.random() * 0.6
    for k, d, alt in table:
        if alt and rng.random() < other:
            full[k] = part[k] = zoo.pick(rng, alt)
        else:
            full[k] = d
            left.append(k)
    drop = [k for k in left if rng.random() < 0.7] or left[:1]
    for k in left:
        if k not in drop:
            part[k] = full[k]
    return full, part, drop


def fresh(kw):
    return {k: (dict(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v) for k, v in kw.items()}


def outcome(f):
    """results, or the kind of refusal: both calls have to behave alike"""
    try:
        return f()
    except Exception as ex:
        return {"raised": np.array([type(ex).__name__])}


def arr(v):
    if isinstance(v, dict):
        return v
    return {"value": np.asarray(v, float)}


def run(case, mon):
    rng = data.rng_of(case)
    X = data.matrix(rng, case["n"], case["p"], "corr")
    y = data.response(rng, X, "linear", 0.3)
    if rng.random() < 0.5:
        out = rng.random(case["n"]) < 0.15
        y = y + out * rng.uniform(1, 8) * (y.std() + 0.1)
        X = X + (rng.random(X.shape) < 0.04) * rng.uniform(2, 10)
    mon.seen(case["kind"], case["name"])
    {"ctor": ctor, "fit": fits, "fun": funs, "plot": plots}[case["kind"]](case, mon, rng, X, y)


def same(mon, clause, what, a, b, drop):
    if "raised" in a and "raised" in b:
        mon.event("both_refused")
        return
    bad = zoo.same(a, b)
    mon.ok(clause, not bad, "%s: leaving out %s changes %s" % (what, drop, "; ".join(bad[:4])))
    mon.event("compared_results", len(a))
    mon.seen(what, *sorted(drop))


def fit_any(name, e, X, y):
    if name == "dicomo":
        v = e.fit(X[:, :1].copy(), y=y.copy())
        return {"value": np.asarray(v, float)}
    if name == "capi":
        return {"value": np.asarray(e.fit(X[:, :1].copy(), y.copy()), float)}
    r = e.fit(X.copy(), y.copy()) if name not in ("scaler", "gss") else e.fit(X.copy())
    out = dict(zoo.results(r))
    if name in ("sprm", "snipls", "rm", "ppdire", "sudire"):
        out["predict"] = zoo.num(r.predict(X[:5]))
    if name in ("scaler", "gss"):
        out["transform"] = zoo.num(r.transform(X.copy()))
    return out


def ctor(case, mon, rng, X, y):
    name = case["name"]
    cls, table = CTOR[name]
    if name == "ppdire" and rng.random() < 0.3:
        X = data.matrix(rng, 6, 9, "gauss")
        y = data.response(rng, X, "linear", 0.3)
    need = {k: d for k, d, alt in table if name == "ppdire" and k in ("projection_index", "pi_arguments")}
    full, part, drop = draw(rng, [t for t in table if t[0] not in need])
    if name == "sudire" and full["sudiremeth"] == "dcov-sdr" and rng.random() < 0.6:
        full["sudiremeth"] = part["sudiremeth"] = zoo.pick(rng, ["sir", "save", "dr", "phd"])
        drop = [k for k in drop if k != "sudiremeth"] or []
        if not drop:
            drop = ["trimming"] if full["trimming"] == 0 else ["copy"] if full["copy"] else []
            for k in drop:
                part.pop(k, None)
    full.update(need)
    part.update(need)
    a = outcome(lambda: fit_any(name, cls(**fresh(full)), X, y))
    b = outcome(lambda: fit_any(name, cls(**fresh(part)), X, y))
    same(mon, "omitted_estimator", name, a, b, drop)
    c = outcome(lambda: fit_any(name, cls(*[fresh({0: full[t[0]]})[0] for t in table]), X, y))
    if not ("raised" in a and "raised" in c):
        bad = zoo.same(a, c)
        mon.ok("positional", not bad, "%s: settings by position in documented order differ from settings by name in %s" % (name, "; ".join(bad[:4])))
    # what the object reports for the omitted ones, and setting a default explicitly afterwards
    e = cls(**fresh(part))
    if hasattr(e, "get_params"):
        g = e.get_params(deep=False)
        for k in drop:
            v = dict((t[0], t[1]) for t in table)[k]
            mon.ok("unset_is_default", k in g and (g[k] is v or g[k] == v), "%s: %s was left out and reads %r instead of %r" % (name, k, g.get(k), v))
        if drop:
            e.set_params(**fresh({k: full[k] for k in drop}))
            d = outcome(lambda: fit_any(name, e, X, y))
            if not ("raised" in a and "raised" in d):
                bad = zoo.same(a, d)
                mon.ok("unset_is_default", not bad, "%s: setting %s to the default changes %s" % (name, drop, "; ".join(bad[:4])))


def fits(case, mon, rng, X, y):
    name = case["name"]
    full, part, drop = draw(rng, FIT[name])
    w = name.split()
    x1, y1 = X[:, :1], y

    def go(kw):
        kw = fresh(kw)
        if w[0] == "dicomo":
            est = "distance" if w[1] in ("dist", "mdd", "mdc") else "arithmetic"
            m = dicomo(est=est, mode=w[-1])
            if w[-1] not in ("mom", "var", "skew", "kurt"):
                kw["y"] = y1.copy()
            return arr(m.fit(x1.copy(), **kw))
        if w[0] == "capi":
            m = capi(max_degree=4)
            v = m.fit(x1.copy(), y1.copy(), **kw)
            return {"value": np.asarray(v, float), "moments": np.asarray(m.moments_, float)}
        if w[0] == "ppdire":
            o = ppdire(projection_index=dicomo, pi_arguments={"mode": "cov", "est": "arithmetic", "center": "mean"}, n_components=1, verbose=False, optimizer_options={"maxiter": 30},
                       regopt=w[1] if len(w) > 1 else "OLS")
            o.fit(X.copy(), y.copy(), **kw)
            return zoo.results(o)
        o = sudire(sudiremeth="dcov-sdr", n_components=1, verbose=False)
        o.fit(X.copy(), y.copy(), **kw)
        return zoo.results(o)

    same(mon, "omitted_fit", name, outcome(lambda: go(full)), outcome(lambda: go(part)), drop)


def funs(case, mon, rng, X, y):
    name = case["name"]
    full, part, drop = draw(rng, FUN[name])
    d = 1 + int(rng.integers(2))
    if name == "kstepLTS":
        X = data.matrix(rng, 200, 5, "heavy")
    u = y - y.mean() + rng.standard_normal(len(y))
    D1 = dutil.distance_matrix_centered(X[:, :1])[0]
    D2 = dutil.distance_matrix_centered(y.reshape(-1, 1))[0]
    raw = np.abs(X[:, :1] - X[:, :1].T)

    def go(kw):
        kw = fresh(kw)
        if name in ("mean", "std", "mad", "kstepLTS", "l1median"):
            return arr(getattr(pre, name)(X.copy(), **kw))
        if name == "scaleTau2":
            return arr(pre.scaleTau2(X[:, :1].copy(), **kw))
        if name == "wrap_univ":
            return arr(pre.wrap_univ(3 * X[:, 0], **kw))
        if name in ("versatile_scale", "gen_ss_pp", "gen_ss_covmat"):
            return arr({"versatile_scale": versatile_scale, "gen_ss_pp": gen_ss_pp, "gen_ss_covmat": gen_ss_covmat}[name](X.copy(), **kw))
        if name == "robust_loss":
            return arr(robust_loss(y, y + 2 * u, **kw))
        if name in ("SIR", "SAVE", "DR"):
            return arr(getattr(sutil, name)(X.copy(), y.copy(), 3, d, **kw))
        if name in ("PHD", "IHT"):
            return arr(getattr(sutil, name)(X.copy(), y.copy(), d, **kw))
        if name == "difference_divergence":
            return arr(dutil.difference_divergence(X.copy(), y.copy(), **kw))
        if name == "distance_matrix_centered":
            return arr(dutil.distance_matrix_centered(X.copy(), **kw)[0])
        if name == "distance_moment":
            return arr(dutil.distance_moment(D1.copy(), D2.copy(), **kw))
        if name == "double_center_flex":
            return arr(dutil.double_center_flex(raw.copy(), **kw)[0])
        if name in ("U_inner", "D_inner"):
            return arr(getattr(dutil, name)(D1.copy(), D2.copy(), **kw))
        if name == "minimize_ipopt":
            A = X.T @ X + np.eye(X.shape[1])
            A = A[:2, :2]
            r = minimize_ipopt(lambda z: 0.5 * z @ A @ z - z @ np.array([1.0, 2.0]), np.array([0.5, 0.5]), **kw)
            return {"x": np.asarray(r.x, float), "fun": np.asarray(r.fun, float)}
        B = int(3)
        np.random.seed(7)
        r = estimate_structural_dim("sir", X.copy(), y.copy(), B, **kw)
        return arr(np.asarray(r[0] if isinstance(r, tuple) else r, float).ravel())

    same(mon, "omitted_function", name, outcome(lambda: go(full)), outcome(lambda: go(part)), drop)


def dump(ax):
    lg = ax.get_legend()
    out = {
        "points": np.array([[u, v] for u, v, c, q in C24.points(ax)]), "colours": np.array([str(c) for u, v, c, q in C24.points(ax)]), "bars": np.array([[u, v] for u, v, c in C24.bars(ax)]),
        "notes": np.array([str(t) for t in C24.notes(ax)]), "title": np.array([ax.get_title()]), "axis": np.array([ax.get_xlabel(), ax.get_ylabel()]), "ticks": np.array([t.get_text() for t in ax.get_xticklabels()]),
        "legend": np.array([] if lg is None else [t.get_text() for t in lg.get_texts()]), "legend_place": np.array([] if lg is None else [str(lg._loc)]),
        "lines": np.concatenate([np.asarray(q.get_xydata(), float).ravel() for q in ax.lines] + [np.zeros(0)]),
    }
    return out


def plots(case, mon, rng, X, y):
    name = case["name"]
    cls, what = name.split()
    full, part, drop = draw(rng, PLOT[name])
    if cls == "sprm" and what == "cv":
        from sklearn.model_selection import GridSearchCV
        gs = GridSearchCV(sprm(verbose=False), {"n_components": [1, 2], "eta": [0.2, 0.6]}, cv=3, scoring="neg_mean_squared_error")
        gs.fit(X, y)
        pl = sprm_plot_cv(gs, C24.COL)
        f = pl.eta_ncomp_contour
    else:
        if cls == "sprm":
            est = sprm(n_components=2, eta=0.3, verbose=False).fit(X, y)
        elif cls == "ppdire":
            est = ppdire(projection_index=dicomo, pi_arguments={"mode": "cov", "est": "arithmetic", "center": "mean"}, n_components=2, verbose=False, optimizer_options={"maxiter": 30})
            est.fit(X.copy(), y.copy())
        else:
            est = sudire(sudiremeth="sir", n_components=2, n_slices=4, verbose=False)
            est.fit(X.copy(), y.copy())
        f = getattr({"sprm": sprm_plot, "ppdire": ppdire_plot, "sudire": sudire_plot}[cls](est, C24.COL), "plot_" + what)
        Xn = data.matrix(rng, 5, 4, "corr")
        for kw in (full, part):
            if full["onlyval"] if "onlyval" in full else False:
                kw["Xn"] = Xn
            if kw.get("onlyval") and what == "yyp":
                kw["ytruev"] = Xn[:, 0].copy()
        if "onlyval" not in drop and part.get("onlyval") is False and rng.random() < 0.5 or "onlyval" in drop and rng.random() < 0.5:
            for kw in (full, part):
                kw["Xn"] = Xn
                if what == "yyp":
                    kw["ytruev"] = Xn[:, 0].copy()
        drop = [k for k in drop if k not in part]

    def go(kw):
        fig, ax = C24.draw(mon, "omitted_plot", name, f, **kw)
        return dump(ax)

    same(mon, "omitted_plot", name, outcome(lambda: go(full)), outcome(lambda: go(part)), drop)
    C24.plt.close("all")
