"""The estimators behave as components of scikit-learn workflows."""
import numpy as np
import pandas as pd
from sklearn.base import clone, is_regressor
from sklearn.compose import ColumnTransformer, TransformedTargetRegressor
from sklearn.ensemble import BaggingRegressor, StackingRegressor, VotingRegressor
from sklearn.linear_model import LinearRegression
from sklearn.metrics import make_scorer, mean_absolute_error, r2_score
from sklearn.model_selection import GridSearchCV, KFold, ShuffleSplit, cross_val_predict, cross_val_score
from sklearn.pipeline import FeatureUnion, Pipeline

import data
import zoo

RULE = (
    "every estimator with random valid settings used inside scikit-learn: cloning, nested parameters, pipelines as first, middle or last step, feature unions, column transformers, transformed targets, bagging, "
    "cross validation and grid search, serial and in worker processes, with arrays and data frames; every outcome compared with the same computation done by hand with fresh objects, fold by fold; "
    "non-trivial = a distinct (estimator, settings, workflow) triple"
)
ASSUMPTIONS = ["scikit-learn's own loops are trusted for the splits only", "fits that fail by hand (degenerate fold) are skipped and counted"]
W = ["clone", "params", "nested_params", "deep_params", "pipeline", "pipeline_transform", "union", "columns", "target", "bagging", "cross_val_predict", "cross_val_score", "scorer", "grid_search", "grid_pipeline", "parallel", "frames", "fit_transform", "is_regressor", "voting", "stacking", "learning"]
CLAUSES = W + ["grid_best", "refit", "set_one", "grid_numpy", "best_clone"]

GRID = {
    "sprm": {"n_components": [1, 2], "eta": [0.0, 0.5], "fun": ["Hampel", "Huber"]},
    "snipls": {"n_components": [1, 2], "eta": [0.0, 0.4, 0.8]},
    "rm": {"fun": ["Hampel", "Fair"], "centre": ["mean", "median"]},
    "ppdire": {"n_components": [1, 2], "center": ["mean", "median"]},
    "sudire": {"n_components": [1, 2], "n_slices": [3, 5]},
}


def gen(rng, tier):
    reps = 8 if tier == "quick" else 110
    for i in range(reps):
        for nm in zoo.NAMES:
            yield {"kind": "params", "name": nm, "p": 4}
        for nm in GRID:
            for wf in ("pipeline", "target", "bagging", "cvp", "cvs", "grid", "gridpipe", "voting", "stacking", "learning"):
                if wf == "voting" and nm not in ("ppdire", "sudire"):
                    continue  # the others predict a column, which voting cannot average
                yield {"kind": wf, "name": nm, "n": int(rng.choice([24, 33])), "p": int(rng.integers(3, 6)), "frame": bool(rng.random() < 0.3), "jobs": 2 if i % 4 == 3 and wf in ("cvp", "grid") else 1}
        for nm in ("sprm", "snipls", "ppdire", "ppdire1", "sudire", "scaler", "wrapper"):
            for wf in ("pipeT", "union", "columns"):
                yield {"kind": wf, "name": nm, "n": int(rng.choice([24, 33])), "p": 4, "frame": bool(rng.random() < 0.3)}


def vec(a):
    return np.asarray(a, float).reshape(-1)


class Twin:
    """a fit by hand and its repetition on data perturbed in the last digits; remembers how far apart they are"""

    wob = 0.0

    def __init__(self, a, b):
        self.a, self.b = a, b

    def _both(self, what, *args):
        u = getattr(self.a, what)(*args)
        v = np.asarray(getattr(self.b, what)(*args), float)
        w = np.asarray(u, float)
        d = np.abs(w - v).max() / (np.abs(w).max() + 1e-300) if w.shape == v.shape and w.size else 1.0
        Twin.wob = max(Twin.wob, d) if np.isfinite(d) else 1.0
        return u

    def predict(self, X):
        return self._both("predict", X)

    def transform(self, X):
        return self._both("transform", X)

    def score(self, X, y):
        return self._both("score", X, y)


def close(mon, clause, got, want, rtol=1e-9, scale=None, msg=""):
    if Twin.wob > 1e-6:
        mon.event("skipped_sensitive")
        mon._count(clause)
        return True
    return mon.close(clause, got, want, rtol=max(rtol, 300 * Twin.wob), scale=scale, msg=msg)


def run(case, mon):
    Twin.wob = 0.0
    rng = data.rng_of(case)
    nm = case["name"]
    c = zoo.config(rng, nm, case["p"])
    if case["kind"] == "params":
        return params(case, mon, rng, nm, c)
    if nm in ("ppdire", "ppdire1"):
        c["kw"]["optimizer"], c["kw"]["optimizer_options"] = "SLSQP", {"maxiter": 15}
    X, y = zoo.make_data(rng, nm, case["n"], case["p"])
    if case["frame"]:
        Xa, ya = pd.DataFrame(X, columns=["c%d" % i for i in range(X.shape[1])]), pd.Series(y)
        mon._count("frames")
    else:
        Xa, ya = X, y
    lab = "%s %s %s" % (case["kind"], nm, c["kw"])
    mon.seen(lab, X)

    def hand(Xt, yt, Xe, over=None):
        r = []
        q = np.random.default_rng(len(Xt))
        for k in range(2):
            e = zoo.build(c)
            if over:
                e.set_params(**over)
            A = Xt.copy() if not k else np.asfortranarray(Xt * (1 + 1e-14 * q.standard_normal(Xt.shape)))
            zoo.fit(e, c, A, yt.copy())
            r.append(e)
        return Twin(*r)

    globals()["k_" + case["kind"]](case, mon, rng, nm, c, X, y, Xa, ya, lab, hand)


def params(case, mon, rng, nm, c):
    e = zoo.build(c)
    lab = "%s %s" % (nm, c["kw"])
    mon.seen(lab)
    p0 = e.get_params()
    k = mon.call("clone", lab, clone, e)
    p1 = k.get_params()
    mon.ok("clone", type(k) is type(e) and set(p0) == set(p1) and all(repr(p0[q]) == repr(p1[q]) for q in p0), "%s: the clone has other settings: %s" % (lab, {q: (p0[q], p1.get(q)) for q in p0 if repr(p0[q]) != repr(p1.get(q))}))
    mon.ok("params", all(repr(p0.get(q)) == repr(v) for q, v in c["kw"].items()), "%s: get_params does not report the settings" % lab)
    d = mon.call("deep_params", lab + " get_params(deep=True)", e.get_params, deep=True)
    mon.ok("deep_params", all(q in d and repr(d[q]) == repr(p0[q]) for q in p0), "%s: deep parameters lack settings" % lab)
    e2 = type(e)(**zoo.build(c).get_params())
    mon.ok("params", all(repr(e2.get_params()[q]) == repr(p0[q]) for q in p0), "%s: rebuilding from get_params gives other settings" % lab)
    other = zoo.build(zoo.config(rng, nm, case["p"])).get_params()
    r = e2.set_params(**other)
    mon.ok("params", r is e2 and all(repr(e2.get_params()[q]) == repr(other[q]) for q in other), "%s: set_params is not reflected by get_params" % lab)
    # one setting at a time, to values that are easily taken for "not given"
    e3 = zoo.build(c)
    for q in sorted(p0):
        for v in (None, False, 0, p0[q]):
            before = e3.get_params(deep=False)
            if not mon.ok("set_one", mon.call("set_one", "%s.set_params(%s=%r)" % (nm, q, v), e3.set_params, **{q: v}) is e3, "set_params does not return the estimator"):
                break
            now = e3.get_params(deep=False)
            mon.ok("set_one", repr(now[q]) == repr(v), "%s: %s set to %r reads %r" % (nm, q, v, now[q]))
            mon.ok("set_one", all(repr(now[k]) == repr(before[k]) for k in now if k != q), "%s: setting %s changed %s" % (nm, q, [k for k in now if k != q and repr(now[k]) != repr(before[k])]))
    mon.ok("set_one", repr(e3.get_params()) == repr(p0), "%s: setting everything back does not give the original settings" % lab)
    # settings as numpy numbers
    e5 = zoo.build(c)
    for q in sorted(p0):
        if type(p0[q]) in (int, float) and not (nm == "capi"):
            v = np.int64(p0[q]) if type(p0[q]) is int else np.float64(p0[q])
            e5.set_params(**{q: v})
            k = mon.call("clone", "%s with %s=%r" % (lab, q, v), clone, e5)
            mon.ok("clone", k.get_params(deep=False)[q] == v, "%s: clone with %s=%r has %r" % (lab, q, v, k.get_params(deep=False)[q]))
    e4 = zoo.build(c)
    mon.ok("params", e4.set_params() is e4 and repr(e4.get_params()) == repr(p0), "%s: set_params() without settings" % lab)
    mon.rejects("params", "%s: an unknown parameter" % lab, e2.set_params, no_such_parameter=1)
    mon.ok("params", repr(e.get_params()) == repr(p0), "%s: the original changed with its copies" % lab)
    if nm in zoo.REGRESSORS:
        mon.ok("is_regressor", is_regressor(e) and is_regressor(zoo.build(c)), "%s is not recognised as a regressor" % nm)
        pipe0 = Pipeline([("b", e)])
        mon.ok("is_regressor", is_regressor(pipe0), "a pipeline ending in %s is not recognised as a regressor" % nm)
    if nm in GRID:
        pipe = Pipeline([("a", zoo.build({"name": "scaler", "kw": {"center": "mean", "scale": "std"}})), ("b", e)])
        for q, vs in GRID[nm].items():
            mon.call("nested_params", lab + " in a pipeline", pipe.set_params, **{"b__" + q: vs[-1], "a__center": "median"})
            mon.ok("nested_params", pipe.named_steps["b"].get_params()[q] == vs[-1] and pipe.get_params()["b__" + q] == vs[-1] and pipe.named_steps["a"].get_params()["center"] == "median", "%s: nested parameter %s" % (lab, q))


def safe(mon, f, *a):
    try:
        return f(*a)
    except Exception:
        mon.event("degenerate_by_hand")
        return None


def k_pipeline(case, mon, rng, nm, c, X, y, Xa, ya, lab, hand):
    sc = zoo.config(rng, "scaler")
    sc["kw"].update(trimming=0, center=str(rng.choice(["mean", "median"])), scale=str(rng.choice(["std", "mad"])))
    Xn = X[:5] * 1.1 + 0.2
    s = zoo.build(sc)
    s.fit(X.copy())
    tr = lambda M: np.asarray(s.transform(M.copy()), float)
    e = safe(mon, lambda: hand(tr(X), y, None))
    if e is None:
        return
    want = vec(e.predict(tr(Xn)))
    if not np.isfinite(want).all():
        return
    pipe = Pipeline([("s", zoo.build(sc)), ("e", zoo.build(c))])
    mon.call("pipeline", lab, pipe.fit, X.copy(), y.copy())
    close(mon, "pipeline", vec(pipe.predict(Xn.copy())), want, rtol=1e-9, scale=np.abs(want).max() + y.std(), msg=lab)
    yy = y[:5]
    w = float(np.ravel(pipe.score(Xn.copy(), yy.copy()))[0])
    close(mon, "pipeline", [w], [float(np.ravel(e.score(tr(Xn), yy.copy()))[0])], rtol=1e-9, scale=1 + abs(w), msg=lab + " score")


def k_target(case, mon, rng, nm, c, X, y, Xa, ya, lab, hand):
    f, g = (np.arcsinh, np.sinh) if rng.random() < 0.5 else (lambda v: v / 10 + 3, lambda v: (v - 3) * 10)
    e = safe(mon, lambda: hand(X, f(y), None))
    if e is None:
        return
    want = g(vec(e.predict(X[:6].copy())))
    if not np.isfinite(want).all():
        return
    t = TransformedTargetRegressor(zoo.build(c), func=f, inverse_func=g)
    mon.call("target", lab, t.fit, X.copy(), y.copy())
    close(mon, "target", vec(t.predict(X[:6].copy())), want, rtol=1e-8, scale=np.abs(want).max() + y.std(), msg=lab)


def k_bagging(case, mon, rng, nm, c, X, y, Xa, ya, lab, hand):
    seed = int(rng.integers(1 << 30))
    n = len(X)
    try:
        b = BaggingRegressor(zoo.build(c), 3, bootstrap=False, max_samples=0.8, random_state=seed).fit(X.copy(), y.copy())
    except Exception as ex:
        # the members fail by hand, too?
        r2 = np.random.default_rng(0)
        if any(safe(mon, lambda: hand(X[i], y[i], None)) is None for i in [r2.permutation(n)[: int(0.8 * n)] for _ in range(8)]):
            return
        mon.ok("bagging", False, "%s: bagging failed: %s" % (lab, ex))
        return
    P = []
    for idx in b.estimators_samples_:
        e = safe(mon, lambda: hand(X[idx], y[idx], None))
        if e is None:
            return
        P.append(vec(e.predict(X[:6].copy())))
    want = np.mean(P, 0)
    if np.isfinite(want).all():
        close(mon, "bagging", vec(b.predict(X[:6].copy())), want, rtol=1e-9, scale=np.abs(want).max() + y.std(), msg=lab)


def k_voting(case, mon, rng, nm, c, X, y, Xa, ya, lab, hand):
    e = safe(mon, lambda: hand(X, y, None))
    if e is None:
        return
    f = vec(e.predict(X[:6].copy()))
    if not np.isfinite(f).all():
        return
    w = [1.0, float(rng.choice([0.5, 2.0]))]
    v = VotingRegressor([("e", zoo.build(c)), ("l", LinearRegression())], weights=w)
    mon.call("voting", lab, v.fit, X.copy(), y.copy())
    want = (w[0] * f + w[1] * LinearRegression().fit(X, y).predict(X[:6])) / sum(w)
    close(mon, "voting", vec(v.predict(X[:6].copy())), want, rtol=1e-9, scale=np.abs(want).max() + np.abs(f).max() + y.std(), msg=lab)


def k_stacking(case, mon, rng, nm, c, X, y, Xa, ya, lab, hand):
    cv = cvsplit(rng, len(X))
    P = np.full((len(X), 2), np.nan)
    for tr, te in cv.split(X):
        e = safe(mon, lambda: hand(X[tr], y[tr], None))
        if e is None:
            return
        P[te] = np.column_stack([vec(e.predict(X[te].copy())), LinearRegression().fit(X[tr], y[tr]).predict(X[te])])
    e = safe(mon, lambda: hand(X, y, None))
    if e is None or not np.isfinite(P).all() or np.linalg.svd(P - P.mean(0), compute_uv=False)[-1] < 1e-3 * np.abs(P).max():
        return
    new = np.column_stack([vec(e.predict(X[:6].copy())), LinearRegression().fit(X, y).predict(X[:6])])
    want = LinearRegression().fit(P, y).predict(new)
    s = StackingRegressor([("e", zoo.build(c)), ("l", LinearRegression())], final_estimator=LinearRegression(), cv=cv)
    mon.call("stacking", lab, s.fit, X.copy(), y.copy())
    if np.isfinite(want).all():
        close(mon, "stacking", vec(s.predict(X[:6].copy())), want, rtol=1e-5, scale=np.abs(want).max() + np.abs(P).max() + np.abs(y).max(), msg=lab)


def k_learning(case, mon, rng, nm, c, X, y, Xa, ya, lab, hand):
    """a learning curve: fits to leading parts of each training fold"""
    from sklearn.model_selection import learning_curve

    sizes = [int(0.6 * (len(X) - len(X) // 3)), len(X) - len(X) // 3 - 1]
    cv = KFold(3)
    want = np.full((2, 3), np.nan)
    for j, (tr, te) in enumerate(cv.split(X)):
        for i, m in enumerate(sizes):
            e = safe(mon, lambda: hand(X[tr[:m]], y[tr[:m]], None))
            if e is None:
                return
            f = vec(e.predict(X[te].copy()))
            if not np.isfinite(f).all():
                return
            want[i, j] = -mean_absolute_error(y[te], f)
    _, _, got = mon.call("learning", lab, learning_curve, zoo.build(c), Xa, ya, train_sizes=sizes, cv=cv, scoring="neg_mean_absolute_error")
    close(mon, "learning", got, want, rtol=1e-8, scale=np.abs(want).max() + 1e-3 * y.std(), msg=lab)


def cvsplit(rng, n):
    return KFold(int(rng.choice([3, 4]))) if rng.random() < 0.5 else KFold(3, shuffle=True, random_state=int(rng.integers(1000)))


def k_cvp(case, mon, rng, nm, c, X, y, Xa, ya, lab, hand):
    cv = cvsplit(rng, len(X))
    want = np.full(len(X), np.nan)
    for tr, te in cv.split(X):
        e = safe(mon, lambda: hand(X[tr], y[tr], None))
        if e is None:
            return
        want[te] = vec(e.predict(X[te].copy()))
    if not np.isfinite(want).all():
        return
    got = mon.call("cross_val_predict", lab, cross_val_predict, zoo.build(c), Xa, ya, cv=cv, n_jobs=case["jobs"])
    close(mon, "cross_val_predict", vec(got), want, rtol=1e-9, scale=np.abs(want).max() + y.std(), msg=lab)
    if case["jobs"] > 1:
        mon._count("parallel")


def k_cvs(case, mon, rng, nm, c, X, y, Xa, ya, lab, hand):
    cv = cvsplit(rng, len(X))
    own, mae = [], []
    for tr, te in cv.split(X):
        e = safe(mon, lambda: hand(X[tr], y[tr], None))
        if e is None:
            return
        f = vec(e.predict(X[te].copy()))
        if not np.isfinite(f).all():
            return
        own.append(r2_score(y[te], f))
        mae.append(-mean_absolute_error(y[te], f))
    s = vec(mon.call("scorer", lab, cross_val_score, zoo.build(c), Xa, ya, cv=cv, scoring="neg_mean_absolute_error"))
    close(mon, "scorer", s, mae, rtol=1e-9, scale=np.abs(mae).max() + 1e-3 * y.std(), msg=lab)
    s = vec(mon.call("cross_val_score", lab, cross_val_score, zoo.build(c), Xa, ya, cv=cv, scoring="r2"))
    close(mon, "cross_val_score", s, own, rtol=1e-8, scale=1 + np.abs(own).max(), msg=lab)
    s = mon.call("cross_val_score", lab + " own score", cross_val_score, zoo.build(c), Xa, ya, cv=cv)
    close(mon, "cross_val_score", vec(s), own, rtol=1e-8, scale=1 + np.abs(own).max(), msg=lab + " own score")


def k_grid(case, mon, rng, nm, c, X, y, Xa, ya, lab, hand, pre=None):
    keys = list(GRID[nm])
    keys = [keys[i] for i in sorted(rng.choice(len(keys), 2, replace=False))]
    grid = {k: GRID[nm][k] for k in keys}
    if nm == "sudire" and c["kw"]["sudiremeth"] == "iht":
        c["kw"]["sudiremeth"] = "save"
    cv = cvsplit(rng, len(X))
    arrays = rng.random() < 0.5
    if arrays:  # candidates as np.arange or np.linspace give them
        mon._count("grid_numpy")
        grid = {k: np.array(v, dtype=str(rng.choice(["float32", "float64"])) if isinstance(v[0], float) else str(rng.choice(["int32", "int64"]))) if not isinstance(v[0], str) else v for k, v in grid.items()}
    combos = [dict(zip(keys, (a, b))) for a in grid[keys[0]] for b in grid[keys[1]]]
    want = []
    T = (lambda s, M: np.asarray(s.transform(M.copy()), float)) if pre else (lambda s, M: M)

    def scale(M):
        if not pre:
            return None
        s = zoo.build(pre)
        s.fit(M.copy())
        return s

    for q in combos:
        v = []
        for tr, te in cv.split(X):
            s = scale(X[tr])
            e = safe(mon, lambda: hand(T(s, X[tr]), y[tr], None, q))
            if e is None:
                return
            f = vec(e.predict(T(s, X[te])))
            if not np.isfinite(f).all():
                return
            v.append(-mean_absolute_error(y[te], f))
        want.append(np.mean(v))
    want = np.array(want)
    clause = "grid_pipeline" if pre else "grid_search"
    est = Pipeline([("s", zoo.build(pre)), ("e", zoo.build(c))]) if pre else zoo.build(c)
    gs = GridSearchCV(est, {("e__" if pre else "") + k: v for k, v in grid.items()}, cv=cv, scoring="neg_mean_absolute_error", n_jobs=case.get("jobs", 1))
    mon.call(clause, lab, gs.fit, Xa, ya)
    R = gs.cv_results_
    got = []
    for q in combos:
        j = [i for i, pr in enumerate(R["params"]) if all(pr[("e__" if pre else "") + k] == v for k, v in q.items())]
        got.append(R["mean_test_score"][j[0]])
    close(mon, clause, got, want, rtol=1e-8, scale=np.abs(want).max() + 1e-3 * y.std(), msg=lab)
    if case.get("jobs", 1) == 1:
        k = mon.call("best_clone", lab + " clone of the best estimator", clone, gs.best_estimator_)
        mon.ok("best_clone", repr(k.get_params(deep=False)) == repr(gs.best_estimator_.get_params(deep=False)) if not pre else True, "%s: the clone of the best estimator has other settings" % lab)
    srt = np.sort(want)[::-1]
    if srt[0] - srt[1] > 1e-6 * abs(srt[0]):
        q = combos[int(np.argmax(want))]
        mon.ok("grid_best", Twin.wob > 1e-6 or all(gs.best_params_[("e__" if pre else "") + k] == v for k, v in q.items()), "%s: best settings %s, by hand %s" % (lab, gs.best_params_, q))
        s = scale(X)
        e = safe(mon, lambda: hand(T(s, X), y, None, q))
        if e is not None:
            f = vec(e.predict(T(s, X[:5])))
            if np.isfinite(f).all():
                close(mon, "refit", vec(gs.predict(Xa[:5])), f, rtol=1e-9, scale=np.abs(f).max() + y.std(), msg=lab)
    if case.get("jobs", 1) > 1:
        mon._count("parallel")


def k_gridpipe(case, mon, rng, nm, c, X, y, Xa, ya, lab, hand):
    k_grid(case, mon, rng, nm, c, X, y, Xa, ya, lab, hand, pre={"name": "scaler", "kw": {"center": "median", "scale": "mad", "trimming": 0}})


def k_pipeT(case, mon, rng, nm, c, X, y, Xa, ya, lab, hand):
    e = safe(mon, lambda: hand(X, y, None))
    if e is None:
        return
    T = np.asarray(e.transform(X.copy()), float).reshape(len(X), -1)
    if not np.isfinite(T).all():
        return
    D = np.column_stack([np.ones(len(X)), T])
    ft = np.asarray(zoo.build(c).fit_transform(X.copy(), y.copy()) if nm not in ("ppdire1", "scaler", "wrapper") else zoo.build(c).fit_transform(X.copy()), float)
    if nm in ("scaler", "wrapper"):
        ft = ft.reshape(T.shape)
    close(mon, "fit_transform", ft, T, rtol=1e-7, scale=np.abs(T).max() + 1e-300, msg=lab)
    sv = np.linalg.svd(D / np.linalg.norm(D, axis=0), compute_uv=False)
    if not sv[-1] > 1e-6 * sv[0]:
        return
    Tn = np.asarray(e.transform(X[:5].copy()), float).reshape(5, -1)
    want = LinearRegression().fit(T, y).predict(Tn)
    if nm == "ppdire1":
        # a pipeline hands the response over: the one-block index ignores it
        mon.event("one_block_in_pipeline")
        return
    pipe = Pipeline([("t", zoo.build(c)), ("l", LinearRegression())])
    mon.call("pipeline_transform", lab, pipe.fit, Xa, ya)
    close(mon, "pipeline_transform", vec(pipe.predict(Xa[:5])), want, rtol=1e-6, scale=np.abs(y).max() + np.abs(want).max(), msg=lab)


def k_union(case, mon, rng, nm, c, X, y, Xa, ya, lab, hand):
    if nm == "ppdire1":
        return
    c2 = {"name": "scaler", "kw": {"center": "mean", "scale": "std"}}
    e = safe(mon, lambda: hand(X, y, None))
    if e is None:
        return
    s = zoo.build(c2)
    s.fit(X.copy())
    want = np.column_stack([np.asarray(e.transform(X[:6].copy()), float).reshape(6, -1), np.asarray(s.transform(X[:6].copy()), float)])
    if not np.isfinite(want).all():
        return
    u = FeatureUnion([("a", zoo.build(c)), ("b", zoo.build(c2))])
    mon.call("union", lab, u.fit, X.copy(), y.copy())
    close(mon, "union", u.transform(X[:6].copy()), want, rtol=1e-9, scale=np.abs(want).max(), msg=lab)


def k_columns(case, mon, rng, nm, c, X, y, Xa, ya, lab, hand):
    if nm == "ppdire1":
        return
    a, b = [0, 2], [1, 3]
    if "n_components" in c["kw"]:
        c["kw"]["n_components"] = 1
    ea, eb = safe(mon, lambda: hand(X[:, a], y, None)), safe(mon, lambda: hand(X[:, b], y, None))
    if ea is None or eb is None:
        return
    want = np.column_stack([np.asarray(ea.transform(X[:6, a].copy()), float).reshape(6, -1), np.asarray(eb.transform(X[:6, b].copy()), float).reshape(6, -1)])
    if not np.isfinite(want).all():
        return
    t = ColumnTransformer([("a", zoo.build(c), a), ("b", zoo.build(c), b)])
    mon.call("columns", lab, t.fit, Xa, ya)
    close(mon, "columns", np.asarray(t.transform(Xa[:6]), float), want, rtol=1e-9, scale=np.abs(want).max() + 1e-300, msg=lab)
