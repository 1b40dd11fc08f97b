"""Estimators are functions of their settings and data: no hidden history."""
import contextlib
import copy
import io
import pickle
import random
import threading

import numpy as np

import data
import zoo
from api import estimate_structural_dim

RULE = (
    "random histories of operations (construct, fit, refit on other data, predict, transform, score, set_params, clone, pickle, deepcopy, "
    "fits of other estimators in between, failing fits, concurrent fits in threads) over every estimator with random settings; the results of the last "
    "fit are compared bit for bit with those of a fresh object; non-trivial = a distinct history"
)
ASSUMPTIONS = ["single-threaded linear algebra, so that equal calls give equal bits", "optional solver replaced by a stand-in with the same interface"]
CLAUSES = ["history", "hyperparameters", "read_only_ops", "deterministic", "rng_untouched", "rng_independent", "pickle", "deepcopy", "clone", "set_params",
           "interleaved", "threads", "failed_fit", "defaults", "repeat_output", "shared_index", "get_params", "fit_returns_self", "switch", "switch_attributes"] + ["history_" + n for n in zoo.NAMES]


def gen(rng, tier):
    reps = 60 if tier == "quick" else 1500
    for i in range(reps):
        for nm in zoo.NAMES:
            yield {"kind": "hist", "name": nm, "data": str(rng.choice(["corr", "gauss", "heavy", "scaled"])), "n": int(rng.choice([20, 31])), "p": int(rng.choice([2, 3, 4])), "steps": int(rng.integers(2, 7))}
    for i in range(max(8, reps // 2)):
        yield {"kind": "threads"}
    for i in range(max(24, reps)):
        yield {"kind": "switch", "what": SWITCH[i % len(SWITCH)]}
    for i in range(max(6, reps // 4)):
        yield {"kind": "defaults", "name": ["sprm", "snipls", "rm", "ppdire", "sudire", "scaler", "wrapper", "gss", "dicomo1", "capi"][i % 10]}


SWITCH = ["two_to_one_block", "one_to_two_block", "ppdire_whitening", "sudire_whitening", "compression", "center_data", "ppdire_scale", "sudire_scale", "regopt", "columns"]
SELF = [n for n in zoo.NAMES if n not in ("dicomo1", "dicomo2", "capi")]


def params_of(est):
    return copy.deepcopy(est.get_params(deep=False))


def eqp(a, b):
    return set(a) == set(b) and all((a[k] is b[k]) or repr(a[k]) == repr(b[k]) for k in a)


def dofit(est, c, X, y):
    with contextlib.redirect_stdout(io.StringIO()):
        return zoo.fit(est, c, X.copy(), y.copy())


def reference(c, X, y, Xn):
    est = zoo.build(c)
    dofit(est, c, X, y)
    return est, copy.deepcopy(zoo.results(est)), copy.deepcopy(zoo.outputs(est, c, Xn))


def run(case, mon):
    rng = data.rng_of(case)
    if case["kind"] == "threads":
        return threads(case, mon, rng)
    if case["kind"] == "switch":
        return switch(case, mon, rng)
    if case["kind"] == "defaults":
        return defaults(case, mon, rng)
    nm = case["name"]
    c = zoo.config(rng, nm, case["p"])
    kind = case["data"] if nm != "sudire_opt" else "gauss"
    X, y = zoo.make_data(rng, nm, case["n"], case["p"], kind)
    X2, y2 = zoo.make_data(rng, nm, case["n"] + 5, case["p"] + (0 if zoo.univariate(nm) else int(rng.integers(0, 2))), "corr" if nm != "sudire_opt" else "gauss")
    if not zoo.univariate(nm) and case["p"] > 2 and nm in ("sprm", "snipls", "scaler", "wrapper", "gss") and rng.random() < 0.5:
        X[:, int(rng.integers(case["p"]))] = 2.5  # a column without variation
        if "n_components" in c["kw"]:
            c["kw"]["n_components"] = 1
        mon.event("constant_column")
    Xn = X[:7] * 0.9 + 0.1
    lab = "%s %s" % (nm, c["kw"])
    np.random.seed(5)
    random.seed(5)
    st, pst = np.random.get_state()[1].copy(), random.getstate()
    try:
        ref, r0, o0 = reference(c, X, y, Xn)
    except Exception as ex:
        mon.event("fit_failed")
        return
    mon.ok("rng_untouched", (np.random.get_state()[1] == st).all() and random.getstate() == pst, "%s: fitting consumed the global random state" % lab)
    np.random.seed(99)
    random.seed(99)
    _, r1, o1 = reference(c, X, y, Xn)
    bad = zoo.same(r1, r0) + zoo.same(o1, o0)
    mon.ok("deterministic", not bad, "%s: a second identical fit differs in %s" % (lab, bad))
    mon.ok("rng_independent", not bad, "%s: the result depends on the global random state: %s" % (lab, bad))
    # one object with a history
    est = zoo.build(c)
    p0 = params_of(est)
    mon.ok("get_params", all(k in p0 for k in c["kw"]), "%s: get_params lacks %s" % (lab, sorted(set(c["kw"]) - set(p0))))
    hist = []
    for _ in range(case["steps"]):
        op = str(rng.choice(["fit_other", "fit_same", "use", "pickle", "copy", "foreign", "fail", "set_back", "fit_variant", "fit_variant", "reconfigure"]))
        hist.append(op)
        try:
            if op == "fit_other":
                dofit(est, c, X2, y2)
            elif op == "fit_same":
                ret = dofit(est, c, X, y)
                if nm in SELF:
                    mon.ok("fit_returns_self", ret is est, "%s: fit returns %r" % (nm, type(ret)))
            elif op == "fit_variant":
                # the same shape, or nearly so, with other structure
                Xv, yv = variant(rng, nm, X, y)
                dofit(est, c, Xv, yv)
                if rng.random() < 0.3:
                    zoo.outputs(est, c, Xv[:4])
            elif op == "reconfigure" and c["kw"]:
                old = copy.deepcopy({k: est.get_params(deep=False)[k] for k in c["kw"]})
                ck = dict(zoo.config(rng, nm, case["p"]), **{k: c[k] for k in ("index", "mode", "est") if k in c})
                est.set_params(**ck["kw"])
                try:
                    dofit(est, ck, X, y)
                finally:
                    est.set_params(**old)
            elif op == "use" and zoo.results(est):
                zoo.outputs(est, c, Xn if "fit_other" not in hist else X2[:4])
            elif op == "pickle":
                est = pickle.loads(pickle.dumps(est))
            elif op == "copy":
                est = copy.deepcopy(est)
            elif op == "foreign":
                k = str(rng.choice(zoo.NAMES))
                cf = zoo.config(rng, k, 3)
                Xf, yf = zoo.make_data(rng, k, 18, 3, "gauss")
                dofit(zoo.build(cf), cf, Xf, yf)
            elif op == "fail":
                failing(est, c, X, y)
            elif op == "set_back" and c["kw"]:
                k = sorted(c["kw"])[int(rng.integers(len(c["kw"])))]
                old = est.get_params(deep=False)[k]
                est.set_params(**{k: old})
        except Exception as ex:
            if op in ("fit_other", "foreign", "use", "fit_variant", "reconfigure"):
                hist[-1] += "!"
                continue
            mon.fail("history", "%s after %s raised %s: %s" % (lab, hist, type(ex).__name__, ex))
            return
    with np.errstate(all="ignore"):
        dofit(est, c, X, y)
    # results that only another configuration reports (cut-offs of another weight function) may linger
    res = lambda e: {k: v for k, v in zoo.results(e).items() if k in r0 or not any(h.startswith("reconfigure") for h in hist)}
    r1 = res(est)
    bad = zoo.same(r1, r0) + zoo.same(zoo.outputs(est, c, Xn), o0)
    mon.ok("history", not bad, "%s: after the history %s the fit differs from a fresh one in %s" % (lab, hist, bad))
    mon.ok("history_" + nm, not bad, "%s: %s after %s" % (lab, bad, hist))
    mon.seen(lab, tuple(hist), X)
    if any(h.startswith("foreign") for h in hist):
        mon.ok("interleaved", not bad, "%s: other estimators fitted in between change %s" % (lab, bad))
    if "fail" in hist:
        mon.ok("failed_fit", not bad, "%s: a rejected fit in between changes %s" % (lab, bad))
    mon.ok("hyperparameters", eqp(params_of(est), p0), "%s: fitting changed the settings: %s" % (lab, {k: (p0.get(k), v) for k, v in params_of(est).items() if repr(p0.get(k)) != repr(v)}))
    # reading operations do not change the object, and repeat
    o1 = zoo.outputs(est, c, Xn)
    if nm == "sprm":
        est.weightnewx(X)
        est.valscore(X, y, "weighted")
    zoo.outputs(est, c, X[:3] * 2)
    if nm in zoo.REGRESSORS:
        est.score(X, y)
    repr(est)
    bad = zoo.same(res(est), r0) + zoo.same(zoo.outputs(est, c, Xn), o1)
    mon.ok("read_only_ops", not bad, "%s: predicting/transforming/scoring changed %s" % (lab, bad))
    mon.ok("repeat_output", not zoo.same(zoo.outputs(est, c, Xn), o1), "%s: a repeated call gives another answer" % lab)
    for how, e2 in (("pickle", pickle.loads(pickle.dumps(est))), ("deepcopy", copy.deepcopy(est))):
        bad = zoo.same(res(e2), r0) + zoo.same(zoo.outputs(e2, c, Xn), o1)
        mon.ok(how, not bad, "%s: %s loses %s" % (lab, how, bad))
        mon.ok(how, eqp(params_of(e2), p0), "%s: %s loses settings" % (lab, how))
    # a fitted copy and its original are independent
    e2 = copy.deepcopy(est)
    try:
        dofit(e2, c, X2, y2)
    except Exception:
        pass
    bad = zoo.same(res(est), r0)
    mon.ok("deepcopy", not bad, "%s: refitting a copy changes the original's %s" % (lab, bad))
    from sklearn.base import clone

    try:
        cl = clone(est)
    except Exception as ex:
        if nm in ("capi", "dicomo1", "dicomo2"):
            mon.event("not_cloneable")
            cl = None
        else:
            mon.fail("clone", "%s: clone raised %s" % (lab, ex))
            return
    if cl is not None:
        mon.ok("clone", eqp(params_of(cl), p0), "%s: clone has other settings" % lab)
        dofit(cl, c, X, y)
        bad = zoo.same(zoo.results(cl), r0)
        mon.ok("clone", not bad, "%s: a clone's fit differs in %s" % (lab, bad))
    # an object re-configured with set_params is an object constructed that way
    c2 = zoo.config(rng, nm, case["p"])
    if nm.startswith("ppdire"):
        c2["index"], c2["mode"], c2["est"] = c["index"], c["mode"], c["est"]
    if nm == "capi":
        c2["mode"], c2["est"] = c["mode"], c["est"]
    try:
        _, r2, o2 = reference(c2, X, y, Xn)
    except Exception:
        mon.event("fit_failed")
        return
    if c2["kw"]:
        est.set_params(**copy.deepcopy(c2["kw"]))
    dofit(est, c2, X, y)
    new = zoo.results(est)
    bad = zoo.same({k: v for k, v in new.items() if k in r2}, r2) + zoo.same(zoo.outputs(est, c2, Xn), o2)
    mon.ok("set_params", not bad, "%s -> %s: an object reconfigured with set_params differs in %s" % (lab, c2["kw"], bad))


def switch(case, mon, rng):
    """a fit that reports other things than the fit before it leaves nothing of the earlier one behind"""
    what = case["what"]
    n, p = int(rng.choice([20, 31])), 4
    X, y = zoo.make_data(rng, "ppdire", n, p, str(rng.choice(["corr", "gauss"])))
    a = zoo.config(rng, "sudire" if what.startswith("sudire") else str(rng.choice(["snipls", "sprm"])) if what == "columns" else "ppdire", p)
    k = a["kw"]
    if a["name"] == "ppdire":
        a["index"], a["mode"], a["est"] = "dicomo", "cov", "arithmetic"
        k.update(optimizer="SLSQP", optimizer_options={"maxiter": 15}, n_components=1)
    b = copy.deepcopy(a)
    q = b["kw"]
    Xb, yb = X, y
    if what == "two_to_one_block":
        for c in (a, b):
            c["mode"] = "var"
        b["name"] = "ppdire1"
    elif what == "one_to_two_block":
        for c in (a, b):
            c["mode"] = "var"
        a["name"] = "ppdire1"
    elif what == "ppdire_whitening":
        k.update(whiten_data=True, center_data=True)
        q.update(whiten_data=False)
    elif what == "sudire_whitening":
        k.update(sudiremeth="sir", whiten_data=True, center="mean", n_components=1)
        q.update(sudiremeth="sir", whiten_data=False, center="mean", n_components=1)
    elif what == "compression":
        a["name"] = b["name"] = "ppdire"
        k.update(compression=True, whiten_data=False)
        q.update(compression=False, whiten_data=False)
        X, y = zoo.make_data(rng, "ppdire", 9, 12, "gauss")
        X, y = X[:9], y[:9]
    elif what == "center_data":
        k.update(center_data=True, whiten_data=False)
        q.update(center_data=False, scale_data=False, whiten_data=False)
    elif what in ("ppdire_scale", "sudire_scale"):
        k.update(scale_data=True, whiten_data=False)
        q.update(scale_data=False, whiten_data=False)
    elif what == "regopt":
        k.update(regopt="robust")
        q.update(regopt=str(rng.choice(["OLS", "quantile"])))
    elif what == "columns":
        Xb = X[:, :3]
        k.update(n_components=2)
        q.update(n_components=2)
    if what != "two_to_one_block" and what != "one_to_two_block" and rng.random() < 0.5:
        (a, b), (X, Xb), (y, yb) = (b, a), (Xb, X), (yb, y)
    lab = "%s: %s then %s" % (what, a["kw"], b["kw"])
    try:
        fresh = zoo.build(b)
        dofit(fresh, b, Xb, yb)
        est = zoo.build(a)
        dofit(est, a, X, y)
    except Exception as ex:
        mon.event("fit_failed")
        return
    r0 = copy.deepcopy(zoo.results(fresh))
    est.set_params(**copy.deepcopy(b["kw"]))
    dofit(est, b, Xb, yb)
    names = lambda e: {v for v, w in vars(e).items() if v.endswith("_") and not v.endswith("__") and w is not None}
    bad = zoo.same(zoo.results(est), r0)
    mon.ok("switch", not bad, "%s: the second fit differs from a fresh one in %s" % (lab, bad))
    mon.ok("switch_attributes", names(est) == names(fresh), "%s: results left over %s, lacking %s" % (lab, sorted(names(est) - names(fresh)), sorted(names(fresh) - names(est))))
    mon.event("switch_" + what)
    mon.seen(lab, X)


def variant(rng, nm, X, y):
    n, p = X.shape
    how = int(rng.integers(6))
    X, y = X.copy(), y.copy()
    if p > 1 and (X.std(0) == 0).any() and rng.random() < 0.6:
        return np.roll(X, 1, axis=1), y  # another column without variation
    if how == 0:
        X[:, int(rng.integers(p))] = -1.0
    elif how == 1:
        X = X[:, rng.permutation(p)]
    elif how == 2:
        X, y = X[: n - 4], y[: n - 4]
    elif how == 3:
        y = rng.permutation(y) * 7 - 3
    elif how == 4:
        i = rng.permutation(n)
        X, y = X[i] * 3 + 11, y[i]
    else:
        X[:, -1] = X[:, 0] * 1e-9 if p > 1 else X[:, 0]
    return X, y


def failing(est, c, X, y):
    """a fit that is rejected (wrong number of cases, text)"""
    n = c["name"]
    for a in ((X, y[:-3]), (np.array([["a"] * X.shape[1]] * len(X), dtype=object), y)):
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                zoo.fit(est, c, *a)
        except Exception:
            pass


def threads(case, mon, rng):
    """concurrent fits give what sequential fits give"""
    jobs, want = [], []
    while len(jobs) < 6:
        nm = str(rng.choice([n for n in zoo.NAMES if n != "sudire_opt"]))
        c = zoo.config(rng, nm, 3)
        if c["kw"].get("optimizer") == "IPOPT":
            c["kw"]["optimizer"] = "SLSQP"
        X, y = zoo.make_data(rng, nm, 20, 3, "corr")
        try:
            _, r, o = reference(c, X, y, X[:4])
        except Exception:
            continue
        jobs.append((c, X, y))
        want.append((r, o))
    got = [None] * len(jobs)
    bar = threading.Barrier(len(jobs))

    def work(i):
        c, X, y = jobs[i]
        try:
            bar.wait(20)
            for _ in range(2):
                e = zoo.build(c)
                zoo.fit(e, c, X.copy(), y.copy())
                got[i] = (zoo.results(e), zoo.outputs(e, c, X[:4]))
        except Exception as ex:
            got[i] = ex

    import sys

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=work, args=(i,)) for i in range(len(jobs))]
        [t.start() for t in ts]
        [t.join(120) for t in ts]
    finally:
        sys.setswitchinterval(old)
    for i, (c, X, y) in enumerate(jobs):
        g = got[i]
        if isinstance(g, Exception) or g is None:
            mon.fail("threads", "%s in a thread raised %r" % (c, g))
            continue
        bad = zoo.same(g[0], want[i][0]) + zoo.same(g[1], want[i][1])
        mon.ok("threads", not bad, "%s fitted concurrently differs in %s" % (c, bad))
        mon.event("concurrent_fits")
    mon.seen("threads", *[X for _, X, _ in jobs])


def defaults(case, mon, rng):
    """objects built from defaults do not influence each other"""
    from api import GenSpatialSignPreProcessor, VersatileScaler, Wrapper, capi, dicomo, ppdire, rm, snipls, sprm, sudire

    nm = case["name"]
    X, y = zoo.make_data(rng, nm, 20, 3, "corr")
    mk = {"sprm": lambda: sprm(verbose=False), "snipls": lambda: snipls(verbose=False), "rm": lambda: rm(verbose=False),
          "ppdire": lambda: ppdire(projection_index=dicomo, pi_arguments={"mode": "cov"}), "sudire": lambda: sudire(sudiremeth="sir", verbose=False),
          "scaler": VersatileScaler, "wrapper": Wrapper, "gss": GenSpatialSignPreProcessor, "dicomo1": dicomo, "capi": lambda: capi(pi_arguments={"mode": "com"})}[nm]
    c = {"name": nm, "kw": {}}
    a, b = mk(), mk()
    pb = params_of(b)
    dofit(a, c, X, y)
    ra = copy.deepcopy(zoo.results(a))
    for v in a.get_params(deep=False).values():
        if isinstance(v, dict) and nm in ("ppdire", "sudire"):
            pass
    mon.ok("defaults", eqp(params_of(b), pb) and not zoo.results_nontrivial(b), "%s: fitting one object changes another" % nm)
    b.set_params(**{k: v for k, v in b.get_params(deep=False).items()})
    dofit(b, c, X * 2 + 1, y * 3)
    bad = zoo.same(zoo.results(a), ra)
    mon.ok("defaults", not bad, "%s: fitting one object changes another's %s" % (nm, bad))
    d = mk()
    mon.ok("defaults", eqp(params_of(d), pb), "%s: the defaults changed after fitting: %s / %s" % (nm, params_of(d), pb))
    dofit(d, c, X, y)
    bad = zoo.same(zoo.results(d), ra)
    mon.ok("defaults", not bad, "%s: a later object built from defaults differs in %s" % (nm, bad))
    mon.seen("defaults", nm, X)
    # two fits sharing one argument dictionary
    if nm == "ppdire":
        args = {"mode": "cov"}
        opts = {"maxiter": 10}
        u, v = (ppdire(projection_index=dicomo, pi_arguments=args, optimizer_options=opts, verbose=False) for _ in range(2))
        dofit(u, c, X, y)
        dofit(v, c, X, y)
        bad = zoo.same(zoo.results(u), zoo.results(v))
        mon.ok("shared_index", not bad and args == {"mode": "cov"} and opts == {"maxiter": 10}, "shared argument dictionaries: %s" % bad)
