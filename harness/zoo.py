"""Every public estimator with random valid settings: shared by the cross-cutting
monitors (data safety, containers, history, new data, interoperability)."""
import numpy as np

import data
import ipoptstub
from api import GenSpatialSignPreProcessor, VersatileScaler, Wrapper, capi, dicomo, ipw, ppdire, rm, snipls, sprm, sudire

ipoptstub.install(ipw)

NAMES = ["sprm", "snipls", "rm", "ppdire", "ppdire1", "sudire", "sudire_opt", "scaler", "wrapper", "gss", "dicomo1", "dicomo2", "capi"]
REGRESSORS = ["sprm", "snipls", "rm", "ppdire", "sudire", "sudire_opt"]
TRANSFORMERS = ["sprm", "snipls", "ppdire", "ppdire1", "sudire", "sudire_opt", "scaler", "wrapper"]


def pick(rng, xs):
    return xs[int(rng.integers(len(xs)))]


def config(rng, name, p=4):
    """JSON-able settings"""
    c = {"name": name}
    if name == "sprm":
        c["kw"] = dict(n_components=int(rng.integers(1, min(p, 3) + 1)), eta=pick(rng, [0.0, 0.3, 0.6]), fun=pick(rng, ["Hampel", "Huber", "Fair"]),
                       centre=pick(rng, ["median", "mean", "l1median", "kstepLTS"]), scale=pick(rng, ["mad", "std", "scaleTau2", "None"]),
                       start_cutoff_mode=pick(rng, ["specific", "other"]), start_X_init=pick(rng, ["pcapp", "no"]), verbose=False, tol=0.01, maxit=30)
    elif name == "snipls":
        c["kw"] = dict(eta=pick(rng, [0.0, 0.3, 0.6]), n_components=int(rng.integers(1, min(p, 3) + 1)), centre=pick(rng, ["mean", "median", "l1median"]),
                       scale=pick(rng, ["std", "mad", "None"]), verbose=False)
    elif name == "rm":
        c["kw"] = dict(fun=pick(rng, ["Hampel", "Huber", "Fair"]), centre=pick(rng, ["median", "mean", "l1median"]), scale=pick(rng, ["mad", "std", "None"]),
                       start_cutoff_mode=pick(rng, ["specific", "other"]), verbose=False)
    elif name == "ppdire":
        c["index"] = pick(rng, ["dicomo", "dicomo", "capi"])
        c["mode"] = pick(rng, ["cov", "corr", "continuum"])
        c["est"] = pick(rng, ["arithmetic", "arithmetic", "distance"]) if c["mode"] == "cov" else "arithmetic"
        c["kw"] = _pp(rng, p)
        c["kw"]["regopt"] = pick(rng, ["OLS", "OLS", "robust", "quantile"])
    elif name == "ppdire1":
        c["index"] = "dicomo"
        c["mode"] = pick(rng, ["var", "kurt", "var"])
        c["est"] = "arithmetic"
        c["kw"] = _pp(rng, p)
    elif name == "sudire":
        c["kw"] = dict(sudiremeth=pick(rng, ["sir", "save", "dr", "phd", "iht"]), n_components=int(rng.integers(1, 3)), n_slices=pick(rng, [3, 5, 6]),
                       center=pick(rng, ["mean", "median"]), center_data=bool(rng.random() < 0.9), scale_data=bool(rng.random() < 0.8), verbose=False)
        if c["kw"]["sudiremeth"] == "iht":
            c["kw"]["n_components"] = 1
    elif name == "sudire_opt":
        c["kw"] = dict(sudiremeth=pick(rng, ["dcov-sdr", "mdd-sdr"]), n_components=1, scale_data=bool(rng.random() < 0.7), verbose=False)
    elif name == "scaler":
        c["kw"] = dict(center=pick(rng, ["mean", "median", "l1median", "kstepLTS", "None"]), scale=pick(rng, ["std", "mad", "scaleTau2", "None"]), trimming=pick(rng, [0, 0, 0.1]))
    elif name == "wrapper":
        c["kw"] = {}
    elif name == "gss":
        c["kw"] = dict(center=pick(rng, ["l1median", "mean", "median", "kstepLTS"]), fun=pick(rng, ["ss", "quad", "winsor", "ball", "shell", "linear_redescending"]))
    elif name == "dicomo1":
        e = pick(rng, ["arithmetic", "arithmetic", "distance"])
        c["kw"] = dict(est=e, mode=pick(rng, ["var", "std", "skew", "kurt", "mom"] if e == "arithmetic" else ["var", "std"]), center=pick(rng, ["mean", "median"]))
        c["fit"] = dict(trimming=pick(rng, [0, 0.1]), biascorr=bool(rng.random() < 0.3), order=pick(rng, [2, 3]))
    elif name == "dicomo2":
        e = pick(rng, ["arithmetic", "arithmetic", "distance"])
        c["kw"] = dict(est=e, mode=pick(rng, ["cov", "corr", "cos", "cok", "com", "M3", "continuum"] if e == "arithmetic" else ["cov", "corr", "mdd", "mdc", "continuum"]),
                       center="mean")
        c["fit"] = dict(trimming=0, biascorr=bool(rng.random() < 0.3), option=pick(rng, [1, 2]), alpha=pick(rng, [1, 2]), order=pick(rng, [2, 3]))
    elif name == "capi":
        c["kw"] = dict(max_degree=pick(rng, [2, 3, 4]), weights=[1, 0.5, 0.2, -0.1, -0.3, -0.2], scaling=bool(rng.random() < 0.5))
        c["mode"], c["est"] = "com", "arithmetic"
    return c


def _pp(rng, p):
    opt = pick(rng, ["SLSQP", "SLSQP", "grid", "IPOPT"])
    return dict(n_components=int(rng.integers(1, 3)), optimizer=opt, optimizer_options={"ndir": 20, "maxiter": 4} if opt == "grid" else {"maxiter": 15},
                center=pick(rng, ["mean", "median"]), center_data=True, scale_data=bool(rng.random() < 0.8), whiten_data=bool(rng.random() < 0.15),
                trimming=pick(rng, [0, 0, 0.1]), verbose=False)


def build(c):
    kw = {k: (dict(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v) for k, v in c["kw"].items()}
    n = c["name"]
    if n == "sprm":
        return sprm(**kw)
    if n == "snipls":
        return snipls(**kw)
    if n == "rm":
        return rm(**kw)
    if n in ("ppdire", "ppdire1"):
        if c["index"] == "capi":
            return ppdire(projection_index=capi, pi_arguments=dict(max_degree=2, projection_index=dicomo, pi_arguments={"est": "arithmetic", "mode": "cov", "center": "mean"}, weights=[1, 0, 0, 0, 0, 0]), **kw)
        return ppdire(projection_index=dicomo, pi_arguments={"est": c["est"], "mode": c["mode"], "center": "mean"}, **kw)
    if n in ("sudire", "sudire_opt"):
        return sudire(**kw)
    if n == "scaler":
        return VersatileScaler(**kw)
    if n == "wrapper":
        return Wrapper(**kw)
    if n == "gss":
        return GenSpatialSignPreProcessor(**kw)
    if n in ("dicomo1", "dicomo2"):
        return dicomo(**kw)
    if n == "capi":
        return capi(projection_index=dicomo, pi_arguments={"est": c["est"], "mode": c["mode"], "center": "mean"}, **kw)
    raise ValueError(n)


def needs_y(name):
    return name in REGRESSORS + ["dicomo2", "capi"]


def univariate(name):
    return name in ("dicomo1", "dicomo2", "capi")


def make_data(rng, name, n, p, kind="corr"):
    X = data.matrix(rng, n, p, kind)
    y = data.response(rng, X, "linear", 0.3)
    if name == "sudire_opt":
        Z = (X - X.mean(0)) / X.std(0)
        t = Z @ data.unit(rng.standard_normal(p))
        y = t + 0.2 * rng.standard_normal(n)
    if univariate(name):
        X = X[:, :1]
    return X, y


def fit(est, c, X, y):
    """fit in the documented call style; returns what fit returned"""
    n = c["name"]
    if n in ("sprm", "snipls", "rm", "sudire", "sudire_opt", "capi"):
        return est.fit(X, y)
    if n == "ppdire":
        return est.fit(X, y)
    if n == "ppdire1":
        return est.fit(X)
    if n == "dicomo1":
        return est.fit(X, **c.get("fit", {}))
    if n == "dicomo2":
        return est.fit(X, y=y, **c.get("fit", {}))
    return est.fit(X)


def num(v):
    try:
        a = np.asarray(v, float)
    except Exception:
        return None
    return a


SKIP = {"datas_", "datans_", "dataw_", "datanw_", "X_gsspp_", "X_gss_pp_"}


def results(est):
    """public fitted results (numeric, trailing underscore)"""
    out = {}
    for k, v in sorted(vars(est).items()):
        if not k.endswith("_") or k.startswith("_") or k in SKIP or isinstance(v, (str, bytes)) or v is None:
            continue
        if k == "colret_":
            out[k] = np.array([str(s) for s in np.ravel(np.asarray(v, object))])
            continue
        if k == "ols_obj_":
            out[k + "params"] = num(v.params)
            out[k + "fitted"] = num(v.fittedvalues)
            continue
        a = num(v)
        if a is not None and a.dtype.kind == "f":
            out[k] = a
    return out


def outputs(est, c, Xn, yn=None):
    """what the fitted object says about new data"""
    n = c["name"]
    out = {}
    if n in REGRESSORS:
        out["predict"] = num(est.predict(Xn))
    if n in TRANSFORMERS:
        out["transform"] = num(est.transform(Xn))
    if n in ("scaler", "wrapper"):
        out["predict"] = num(est.predict(Xn))
    if n == "scaler":
        out["inverse_transform"] = num(est.inverse_transform(Xn))
    return out


def same(a, b, rtol=0.0):
    """list of names that differ; rtol=0: bit for bit"""
    bad = []
    for k in sorted(set(a) | set(b)):
        if k not in a or k not in b:
            bad.append(k + " (missing)")
            continue
        u, v = a[k], b[k]
        if u.dtype.kind in "US":
            if not (u.shape == v.shape and (u == v).all()):
                bad.append(k)
        elif u.shape != v.shape:
            bad.append("%s shape %s/%s" % (k, u.shape, v.shape))
        elif rtol == 0:
            if not np.array_equal(u, v, equal_nan=True):
                bad.append("%s (max diff %.3g)" % (k, np.nanmax(np.abs(u - v)) if u.size else 0))
        else:
            s = np.nanmax(np.abs(v)) if v.size and np.isfinite(v).any() else 1.0
            d = np.abs(u - v)
            if (np.isnan(u) != np.isnan(v)).any() or (d.size and not (np.nanmax(np.append(d, 0)) <= rtol * s + 1e-300)):
                bad.append("%s (max diff %.3g of %.3g)" % (k, np.nanmax(d), s))
    return bad


def results_nontrivial(est):
    """fitted results of an object that was never fitted (there should be none)"""
    return [k for k, v in results(est).items() if v.size > 1]
