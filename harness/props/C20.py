"""The caller's data and option objects are never modified."""
import copy
import hashlib

import numpy as np
import pandas as pd
from sklearn.metrics import mean_absolute_error

import data
import zoo
from api import dutil, estimate_structural_dim, gen_ss_covmat, gen_ss_pp, gss, minimize_ipopt, msup, pre, robust_loss, sutil, versatile_scale, wrap

RULE = (
    "every estimator (random valid settings) and every helper function driven with arrays, Fortran-ordered arrays, strided views, read-only arrays, "
    "data frames and series; content hashes of everything the caller handed over taken before and after every call, and the training data overwritten "
    "after fitting; non-trivial = a distinct (estimator, settings, container) combination"
)
ASSUMPTIONS = ["an optional solver is replaced by a stand-in with the same interface (cyipopt is not installable offline)",
               "independence from later changes of the training data is claimed for the default copy=True"]
CLAUSES = ["unchanged_" + n for n in zoo.NAMES] + ["readonly", "new_data", "overwrite", "options", "functions", "copy_false", "frames", "views", "structural_dim", "minimise", "fresh"]
CONT = ["c", "f", "view", "df", "dfidx", "readonly"]


def gen(rng, tier):
    reps = 120 if tier == "quick" else 2500
    for i in range(reps):
        for nm in zoo.NAMES:
            yield {"kind": "est", "name": nm, "cx": CONT[i % 6], "cy": str(rng.choice(["c", "c2", "df", "dfidx", "readonly", "readonly2"])),
                   "data": str(rng.choice(["corr", "gauss", "scaled", "ties", "heavy"])), "copy": bool(rng.random() < 0.75), "n": int(rng.choice([20, 31])), "p": int(rng.choice([2, 3, 4]))}
    for i in range(reps * 2):
        yield {"kind": "fun", "cx": CONT[i % 6], "n": int(rng.choice([15, 24])), "p": int(rng.choice([1, 2, 3]))}
    for i in range(max(4, reps // 8)):
        yield {"kind": "dim", "cx": CONT[i % 6]}


def digest(o):
    """content and layout of anything handed over"""
    h = hashlib.sha1()
    if isinstance(o, (pd.DataFrame, pd.Series)):
        h.update(np.ascontiguousarray(o.to_numpy()).tobytes())
        h.update(repr((list(o.index), list(o.columns) if isinstance(o, pd.DataFrame) else o.name, o.shape)).encode())
    elif isinstance(o, np.ndarray):
        h.update(np.ascontiguousarray(o).tobytes())
        h.update(repr((o.shape, o.dtype, o.strides, o.flags.writeable)).encode())
        if o.base is not None and isinstance(o.base, np.ndarray):
            h.update(np.ascontiguousarray(o.base).tobytes())
    else:
        h.update(repr(o).encode())
    return h.hexdigest()


def wrapc(a, how):
    if how == "c2":
        return a[:, None].copy()
    if how == "readonly2":
        b = a[:, None].copy()
        b.setflags(write=False)
        return b
    return data.as_container(a, how)


class Watch:
    def __init__(self, mon, clause, what):
        self.mon, self.clause, self.what, self.items = mon, clause, what, []

    def add(self, name, obj):
        self.items.append((name, obj, digest(obj)))
        return obj

    def check(self, when):
        bad = [n for n, o, h in self.items if digest(o) != h]
        return self.mon.ok(self.clause, not bad, "%s: %s modified the caller's %s" % (self.what, when, ", ".join(bad)))


def run(case, mon):
    rng = data.rng_of(case)
    if case["kind"] == "fun":
        return functions(case, mon, rng)
    if case["kind"] == "dim":
        return structural(case, mon, rng)
    nm = case["name"]
    c = zoo.config(rng, nm, case["p"])
    dk = case["data"] if nm not in ("sudire_opt",) else "gauss"
    X, y = zoo.make_data(rng, nm, case["n"], case["p"], dk)
    if "copy" in getattr(zoo.build(c), "__dict__", {}):
        c["kw"]["copy"] = case["copy"]
    lab = "%s %s X as %s, y as %s" % (nm, c["kw"], case["cx"], case["cy"])
    cx = case["cx"]
    if zoo.univariate(nm) and cx in ("df", "dfidx"):
        cx = "c"
    cy = case["cy"] if nm not in ("dicomo2", "capi") else {"df": "c", "dfidx": "c"}.get(case["cy"], case["cy"])
    w = Watch(mon, "unchanged_" + nm, lab)
    Xc = w.add("X", wrapc(X, cx))
    yc = w.add("y", wrapc(y, cy))
    opt = {k: v for k, v in c["kw"].items() if isinstance(v, (dict, list))}
    if nm == "sprm" and rng.random() < 0.3 or nm == "snipls" and rng.random() < 0.3:
        c["kw"]["columns"] = ["a%d" % j for j in range(case["p"])]
    est = build_live(c, w)
    try:
        zoo.fit(est, c, Xc, yc)
    except Exception as ex:
        if "read-only" in str(ex) or "NaN" not in str(ex) and nm not in ("sprm", "snipls"):
            mon.fail("readonly" if "read-only" in str(ex) else "unchanged_" + nm, "%s raised %s: %s" % (lab, type(ex).__name__, ex))
            return
        w.check("a failing fit")
        mon.event("fit_failed")
        return
    w.check("fit")
    mon.seen(lab, X)
    if "readonly" in case["cx"] or "readonly" in case["cy"]:
        mon._count("readonly")
    if case["cx"] in ("df", "dfidx"):
        mon._count("frames")
    if case["cx"] == "view":
        mon._count("views")
    if opt:
        mon._count("options")
    r0 = copy.deepcopy(zoo.results(est))
    Xn = wrapc(X[: max(3, case["n"] // 3)] * 1.01, case["cx"] if not zoo.univariate(nm) else "readonly")
    w.clause = "new_data"
    w.add("new X", Xn)
    o0 = copy.deepcopy(zoo.outputs(est, c, Xn))
    if isinstance(Xn, np.ndarray):
        for meth in ("predict", "transform", "inverse_transform"):
            if meth in o0:
                got = getattr(est, meth)(Xn)
                mon.ok("fresh", not np.shares_memory(np.asarray(got), Xn), "%s: %s returns the caller's own array" % (lab, meth))
    if nm == "sprm":
        est.weightnewx(Xn)
        for sc in ("normal", "weighted"):
            est.valscore(Xc, yc, sc)
    if hasattr(est, "score") and nm in zoo.REGRESSORS:
        est.score(Xc, yc)
    if hasattr(est, "fit_transform") and nm in ("scaler", "wrapper", "gss"):
        est.fit_transform(Xc)
    if nm == "gss":
        est.transform(Xc)
    w.check("predict/transform/score")
    if not case["copy"]:
        mon._count("copy_false")
        return
    # later changes of the training data do not reach the model
    if case["cx"] in ("c", "f", "view"):
        est2 = zoo.build(c)
        zoo.fit(est2, c, Xc, yc)
        Xc[...] = 1e3 * rng.standard_normal(Xc.shape)
        if isinstance(yc, np.ndarray) and yc.flags.writeable:
            yc[...] = -77.0
        bad = zoo.same(zoo.results(est2), r0) + zoo.same(zoo.outputs(est2, c, Xn), o0)
        mon.ok("overwrite", not bad, "%s: overwriting the training data after fit changes %s" % (lab, bad))


def build_live(c, w):
    """build with the option objects themselves handed over and watched"""
    for k, v in c["kw"].items():
        if isinstance(v, (dict, list)):
            w.add("option " + k, v)
    kw = c["kw"]
    n = c["name"]
    if n in ("ppdire", "ppdire1") and c["index"] == "dicomo":
        from api import dicomo, ppdire

        a = w.add("option pi_arguments", {"est": c["est"], "mode": c["mode"], "center": "mean"})
        return ppdire(projection_index=dicomo, pi_arguments=a, **kw)
    if n == "capi":
        from api import capi, dicomo

        a = w.add("option pi_arguments", {"est": c["est"], "mode": c["mode"], "center": "mean"})
        return capi(projection_index=dicomo, pi_arguments=a, **kw)
    if n in ("sprm", "snipls"):
        from api import snipls, sprm

        return {"sprm": sprm, "snipls": snipls}[n](**kw)
    return zoo.build(c)


def functions(case, mon, rng):
    n, p = case["n"], case["p"]
    X = data.matrix(rng, n, p, "corr")
    y = data.response(rng, X, "linear", 0.3)
    arr = case["cx"] if case["cx"] not in ("df", "dfidx") else "c"
    calls = []
    A = lambda: data.as_container(X, arr)
    D = lambda: data.as_container(X, case["cx"])
    V = lambda v: data.as_container(v, arr)
    for f in ("mad", "median", "mean", "std", "l1median", "kstepLTS", "scaleTau2"):
        calls.append((f, lambda a, f=f: getattr(pre, f)(a, trimming=0.1) if f in ("mean", "std") else getattr(pre, f)(a), [A()]))
    calls.append(("scale_data", pre.scale_data, [A(), V(X.mean(0)), V(np.append(X.std(0)[:-1], 0.0))]))
    calls.append(("wrap", wrap, [A(), V(np.median(X, 0)), V(X.std(0))]))
    calls.append(("wrap_univ", lambda a: pre.wrap_univ(a, scale=True), [V(X[:, 0])]))
    calls.append(("handle_zeros", pre._handle_zeros_in_scale, [V(np.array([0.0, 1.0, 2.0]))]))
    calls.append(("versatile_scale", versatile_scale, [D()]))
    for f in ("ss", "quad", "winsor", "ball", "shell", "linear_redescending"):
        calls.append(("gen_ss_pp " + f, lambda a, f=f: gen_ss_pp(a, fun=f), [D()]))
        calls.append((f, lambda a, f=f: getattr(gss, f)(a, p, n), [V(np.asarray(gss._norms(X)))]))
    calls.append(("gen_ss_covmat", gen_ss_covmat, [D()]))
    d = np.abs(X[:, 0]) * 3
    calls += [("Huber", lambda a: msup.Huber(a, 1.5), [V(d)]), ("Fair", lambda a: msup.Fair(a, 1.5), [V(d)]), ("Hampel", lambda a: msup.Hampel(a, 1.0, 2.0, 3.0), [V(d)])]
    calls += [("robust_loss", robust_loss, [V(y), V(y + 0.3 * rng.standard_normal(n))]), ("robust_loss mae", lambda a, b: robust_loss(a, b, lfun=mean_absolute_error), [V(y), V(y * 1.1)])]
    if p > 1:
        for f in ("SIR", "SAVE", "DR"):
            calls.append((f, lambda a, b, f=f: getattr(sutil, f)(a, b, 3, 1), [A(), V(y)]))
        calls += [("PHD", lambda a, b: sutil.PHD(a, b, 1), [A(), V(y)]), ("IHT", lambda a, b: sutil.IHT(a, b, 1), [A(), V(y)])]
    calls += [("difference_divergence", lambda a, b: dutil.difference_divergence(a, b), [A(), V(y)]),
              ("distance_matrix_centered", lambda a: dutil.distance_matrix_centered(a, trimming=0, center="mean", biascorr=True), [A()])]
    for what, f, args in calls:
        before = [digest(a) for a in args]
        try:
            f(*args)
        except Exception as ex:
            mon.ok("functions", "read-only" not in str(ex), "%s writes into its input: %s" % (what, ex))
            if "read-only" not in str(ex):
                mon.fail("functions", "%s raised %s: %s" % (what, type(ex).__name__, ex))
            continue
        mon.ok("functions", [digest(a) for a in args] == before, "%s modified its input" % what)
    mon.seen("fun", X)
    opt = {"maxiter": 5, "disp": 0}
    x0 = V(X[0] / np.linalg.norm(X[0]))
    con = {"type": "eq", "fun": lambda x: np.linalg.norm(x) - 1}
    b = [digest(x0), repr(opt), sorted(con)]
    minimize_ipopt(lambda x: float(np.sum((x - 1.0) ** 2)), x0, constraints=con, options=opt)
    mon.ok("minimise", [digest(x0), repr(opt), sorted(con)] == b, "minimize_ipopt modified its start, options or constraints")


def structural(case, mon, rng):
    X = rng.standard_normal((40, 3))
    y = X[:, 0] + 0.1 * rng.standard_normal(40)
    w = Watch(mon, "structural_dim", "estimate_structural_dim as %s" % case["cx"])
    Xc, yc = w.add("X", data.as_container(X, case["cx"])), w.add("y", data.as_container(y, case["cx"]))
    mon.call("structural_dim", "estimate_structural_dim", estimate_structural_dim, "sir", Xc, yc, 3, n_slices=4)
    w.check("estimate_structural_dim")
    mon.seen("dim", X)
