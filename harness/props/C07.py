"""Moment objects keep no history; the co-moment index is the weighted sum of its co-moments."""
import copy

import numpy as np

import data
from api import capi, dicomo

RULE = (
    "random histories of 6..14 evaluations on one shared moment object (mode, centre, data and options change between calls, failing "
    "calls interleaved), each compared with a fresh object; co-moment indices over degree 2..4, weights, scaling, option lists and index "
    "arguments compared with co-moments evaluated one by one; non-trivial = a distinct history or index setting"
)
ASSUMPTIONS = ["a fresh object's statistic is decided by C05/C06"]
CLAUSES = [
    "history", "hyperparameters", "inputs_untouched", "returned_is_stored", "after_error", "index_value", "index_moments", "index_weights",
    "index_options", "index_refit", "index_params", "index_degree", "index_kwargs", "index_no_scaling", "index_distance", "index_reargument",
]
MODES = ["mom", "var", "std", "skew", "kurt", "com", "cov", "cos", "cok", "corr", "continuum", "M3"]
DMODES = ["mom", "var", "std", "com", "cov", "corr", "continuum", "mdd", "mdc", "M3", "cos", "cok", "skew", "kurt"]


def gen(rng, tier):
    reps = 800 if tier == "quick" else 4000
    for _ in range(reps):
        yield {"kind": "arithmetic", "steps": int(rng.integers(6, 15))}
        yield {"kind": "distance", "steps": int(rng.integers(6, 15))}
        yield {"kind": "index"}


def pair(rng):
    n = int(rng.choice([8, 15, 40]))
    x = rng.standard_normal(n) * 2 + 1
    y = x * rng.uniform(-1, 1) + rng.standard_normal(n)
    if rng.random() < 0.3:
        x, y = x ** 2, np.round(y, 1)
    return (x[:, None], y[:, None]) if rng.random() < 0.6 else (x, y)


def settings(rng, est):
    mode = str(rng.choice(MODES if est == "arithmetic" else DMODES))
    center = str(rng.choice(["mean", "mean", "median"]))
    kw = {}
    if rng.random() < 0.4:
        kw["biascorr"] = bool(rng.random() < 0.7)
    if rng.random() < 0.3:
        kw["trimming"] = float(rng.choice([0.0, 0.1]))
    if mode in ("mom", "com") and rng.random() < 0.7:
        kw["order"] = int(rng.choice([2, 3, 4]))
    if mode in ("com", "cos", "cok", "M3") and rng.random() < 0.6:
        kw["option"] = int(rng.choice([1, 2]))
    if mode == "continuum":
        kw["alpha"] = float(rng.choice([0.5, 1, 2]))
    if est == "distance" and rng.random() < 0.4:
        kw["calcmode"] = str(rng.choice(["fast", "naive"]))
    return mode, center, kw


def value(mon, clause, o, x, y, kw):
    """value, or ('error', type) - both are behaviour that must not depend on history"""
    try:
        v = o.fit(x, y=y, **kw)
        return float(np.asarray(v).reshape(-1)[0])
    except Exception as ex:
        return ("error", type(ex).__name__)


def same(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        return a == b
    return (np.isnan(a) and np.isnan(b)) or abs(a - b) <= 1e-12 * max(1.0, abs(a), abs(b)) or a == b


def run(case, mon):
    rng = data.rng_of(case)
    if case["kind"] == "index":
        return index(case, mon, rng)
    est = case["kind"]
    o = dicomo(est=est, mode="var", center="mean")
    hist = []
    for k in range(case["steps"]):
        mode, center, kw = settings(rng, est)
        x, y = pair(rng)
        keep = rng.random() < 0.35 and k > 0
        if keep:
            mode, center = o.mode, o.center
        else:
            o.set_params(mode=mode, center=center)
        x0, y0, kw0 = x.copy(), y.copy(), copy.deepcopy(kw)
        if rng.random() < 0.15:
            r = value(mon, "after_error", o, x, y[:-2], kw)
            mon.event("interleaved_failing_call")
            if est == "arithmetic" and mode in ("com", "cov", "cos", "cok", "corr", "continuum"):
                mon.ok("after_error", isinstance(r, tuple), "%s accepted vectors of different length: %r" % (mode, r))
        got = value(mon, "history", o, x, y, kw)
        fresh = value(mon, "history", dicomo(est=est, mode=mode, center=center), x0, y0, kw0)
        hist.append((mode, center, sorted(kw.items())))
        mon.ok("history", same(got, fresh), "step %d %s/%s %r: %r, fresh object %r" % (k, mode, center, kw, got, fresh))
        mon.ok("hyperparameters", (o.mode, o.center, o.est) == (mode, center, est), "fit changed parameters to %r" % ((o.mode, o.center, o.est),))
        mon.ok("inputs_untouched", np.array_equal(x, x0) and np.array_equal(y, y0) and kw == kw0, "fit changed its input (%s %r)" % (mode, kw))
        if not isinstance(got, tuple):
            mon.ok("returned_is_stored", same(float(np.asarray(o.moment_).reshape(-1)[0]), got), "moment_ %r, returned %r" % (o.moment_, got))
            again = value(mon, "history", o, x, y, kw)
            mon.ok("history", same(again, got), "repeated call gives %r after %r" % (again, got))
    mon.seen(est, repr(hist), x0)


def index(case, mon, rng):
    x, y = pair(rng)
    deg = int(rng.choice([2, 3, 4]))
    scal = bool(rng.random() < 0.5)
    w = [float(v) for v in np.round(rng.uniform(-2, 2, 6), 2)]
    est = str(rng.choice(["arithmetic", "arithmetic", "distance"]))
    opts = [None, [1], [1, 2], [2], [1, 3], [1, 2, 3]][int(rng.integers(6))]
    kw = {"biascorr": bool(rng.random() < 0.5)} if rng.random() < 0.5 else {}
    args = dict(max_degree=deg, projection_index=dicomo, pi_arguments={"est": est, "mode": "cov", "center": "mean"}, weights=list(w), scaling=scal)
    if opts is not None:
        args["options"] = list(opts)
    ref_args = copy.deepcopy({k: v for k, v in args.items() if k != "projection_index"})
    c = capi(**args)
    x0, y0 = x.copy(), y.copy()
    got = mon.call("index_value", "capi.fit", c.fit, x, y, **kw)
    # expected: order k, option o  ->  slots [2,1] [3,1] [3,2] [4,1] [4,2] [4,3]
    modes = {2: "cov", 3: "cos", 4: "cok"} if scal else {2: "com", 3: "com", 4: "com"}
    slots = [(2, 1), (3, 1), (3, 2), (4, 1), (4, 2), (4, 3)]
    want = np.zeros(6)
    allowed = [1, 2, 3] if opts is None else opts
    for i, (k, o) in enumerate(slots):
        if k <= deg and o in allowed:
            want[i] = float(np.asarray(dicomo(est=est, mode=modes[k], center="mean").fit(x0.copy(), y=y0.copy(), order=k, option=o, **kw)).reshape(-1)[0])
    s = np.abs(want).max() + 1e-300
    mon.close("index_value", got, np.dot(w, want), rtol=1e-9, scale=s * 3, msg="deg %d scaling %s options %r" % (deg, scal, opts))
    mon.close("index_moments", c.moments_, want, rtol=1e-9, scale=s)
    mon.close("index_weights", c.capi_index_, np.dot(w, np.asarray(c.moments_, float)), rtol=1e-9, scale=s * 3)
    if opts is not None:
        mon.close("index_options", c.moments_, want, rtol=1e-9, scale=s)
    if kw:
        mon.close("index_kwargs", got, np.dot(w, want), rtol=1e-9, scale=s * 3)
    if not scal:
        mon.close("index_no_scaling", got, np.dot(w, want), rtol=1e-9, scale=s * 3)
    if est == "distance":
        mon.close("index_distance", got, np.dot(w, want), rtol=1e-9, scale=s * 3)
    mon.seen(deg, scal, w, est, opts, x0)
    mon.ok("inputs_untouched", np.array_equal(x, x0) and np.array_equal(y, y0), "capi.fit changed its input")
    now = {k: getattr(c, k) for k in ref_args}
    mon.ok("index_params", now == ref_args, "parameters became %r" % now)
    x2, y2 = pair(rng)
    c.fit(x2, y2, **kw)
    again = mon.call("index_refit", "capi.fit", c.fit, x0.copy(), y0.copy(), **kw)
    mon.close("index_refit", again, got, rtol=1e-12, scale=s * 3)
    # changed parameters take effect
    w2 = [float(v) for v in np.round(rng.uniform(-2, 2, 6), 2)]
    c.set_params(weights=w2)
    mon.close("index_refit", mon.call("index_refit", "capi.fit", c.fit, x0.copy(), y0.copy(), **kw), np.dot(w2, want), rtol=1e-9, scale=s * 3)
    c.set_params(max_degree=2, weights=w)
    mon.close("index_degree", mon.call("index_degree", "capi.fit", c.fit, x0.copy(), y0.copy(), **kw), w[0] * want[0], rtol=1e-9, scale=s * 3)
    # a changed index, or changed arguments of the index, take effect with the next fit
    ctr = str(rng.choice(["mean", "median"]))
    e2 = str(rng.choice(["arithmetic", "distance"]))
    c = capi(**copy.deepcopy({k: v for k, v in args.items() if k != "projection_index"}), projection_index=dicomo)
    if rng.random() < 0.5:
        c.fit(x2, y2, **kw)
    c.set_params(pi_arguments={"est": e2, "mode": "cov", "center": ctr})
    w3 = np.zeros(6)
    for i, (k, o) in enumerate(slots):
        if k <= deg and o in allowed:
            w3[i] = float(np.asarray(dicomo(est=e2, mode=modes[k], center=ctr).fit(x0.copy(), y=y0.copy(), order=k, option=o, **kw)).reshape(-1)[0])
    g3 = mon.call("index_reargument", "capi.fit", c.fit, x0.copy(), y0.copy(), **kw)
    mon.close("index_reargument", g3, np.dot(w, w3), rtol=1e-9, scale=(np.abs(w3).max() + 1e-300) * 3, msg="pi_arguments set later: %s %s" % (e2, ctr))

    class Twice(dicomo):
        def fit(self, x, **kw):
            return 2 * np.asarray(dicomo.fit(self, x, **kw))

    c = capi(**copy.deepcopy({k: v for k, v in args.items() if k != "projection_index"}), projection_index=dicomo)
    c.set_params(projection_index=Twice)
    mon.close("index_reargument", mon.call("index_reargument", "capi.fit", c.fit, x0.copy(), y0.copy(), **kw), 2 * np.dot(w, want), rtol=1e-9, scale=s * 3, msg="projection_index set later")
    mon.rejects("index_degree", "max_degree=5", capi, max_degree=5)
    mon.rejects("index_degree", "max_degree=1", capi(max_degree=1).fit, x0, y0)
