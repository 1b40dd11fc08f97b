"""Sufficient dimension reduction by optimisation, and the solver interface."""
import numpy as np

import core
import data
import ipoptstub
import ref
from api import ipw, jacmod, minimize_ipopt, sudire, sutil

ipoptstub.install(ipw)

RULE = (
    "distance covariance, martingale difference divergence and user supplied objectives fitted with one or two components, scaled or unscaled, with default or user supplied start, constraints and arguments; "
    "every problem handed to the solver recorded; solutions compared with constraints, starting bases, neighbouring bases, exact optima of quadratic objectives and the true index; "
    "the solver interface driven with random smooth problems, options, bounds, constraints and derivative conventions; non-trivial = a distinct problem"
)
ASSUMPTIONS = ["the optional solver is replaced by a stand-in with the same interface (cyipopt is not installable offline), solving with scipy's SLSQP",
               "optimality is local: neighbouring bases and starting bases are not better"]
CLAUSES = ["constraint", "unscaled", "two_components", "start_bases", "local", "scores", "projection", "regression", "predict", "user_objective", "user_start", "user_constraints", "user_arguments",
           "recovery", "mdd", "dcov", "problem", "options", "bounds", "constraint_bounds", "gradient", "constraint_jacobian", "result", "counts", "exact_solution", "jac_true", "jac_function", "arguments", "scalar",
           "approx_jacobian", "central_jacobian", "objective_functions", "constraint_arguments", "uncentred", "objective_handed", "metric"]


def gen(rng, tier):
    reps = 200 if tier == "quick" else 3000
    for i in range(reps):
        yield {"kind": "sdr", "meth": ["dcov-sdr", "mdd-sdr", "user"][i % 3], "p": int(rng.integers(2, 5)), "n": int(rng.choice([30, 45])), "d": 1 + (i // 3) % 2, "scale": bool(rng.random() < 0.7), "center": str(rng.choice(["mean", "mean", "median"])),
               "data": str(rng.choice(["gauss", "corr", "skew"])), "centre": bool(rng.random() < 0.85)}
    for i in range(max(16, reps // 2)):
        yield {"kind": "recover", "meth": ["dcov-sdr", "mdd-sdr"][i % 2], "p": int(rng.integers(3, 5))}
    for i in range(reps * 3):
        yield {"kind": "solver", "p": int(rng.integers(1, 6))}
    for i in range(reps * 3):
        yield {"kind": "jac", "p": int(rng.integers(1, 6)), "m": int(rng.integers(1, 4))}
    for i in range(reps):
        yield {"kind": "objfun", "p": int(rng.integers(1, 4)), "d": int(rng.integers(1, 3)), "n": int(rng.choice([8, 20]))}


def run(case, mon):
    rng = data.rng_of(case)
    ipoptstub.Problem.log = []
    if case["kind"] in ("sdr", "recover"):
        return core.confirmed(mon, lambda j, sub: globals()["k_" + case["kind"]](case, sub, data.rng_of(case), j))
    globals()["k_" + case["kind"]](case, mon, rng)


def whiten(X, center, centre, scale):
    """standardised data the methods work on, and the map back to the variables"""
    p = X.shape[1]
    if scale and center == "mean":
        S = np.cov(X, rowvar=False).reshape(p, p)
        w, v = np.linalg.eigh(S)
        N = v @ np.diag(w ** -0.5) @ v.T
        return (X - X.mean(0) if centre else X) @ N, N
    if scale:
        m, s = ref.cols(ref.r_median, X), ref.cols(ref.r_mad, X)
        return (X - m) / s, np.diag(1 / s)
    if not centre:
        return X, np.eye(p)
    m = X.mean(0) if center == "mean" else ref.cols(ref.r_median, X)
    return X - m, np.eye(p)


def reorder(X, y, case, j):
    """the same data, presented differently"""
    if not j:
        return X, y
    q = np.random.default_rng([case["seed"], j])
    pr = q.permutation(len(X))
    pc = q.permutation(X.shape[1])
    return X[pr][:, pc], y[pr]


def quad(beta, *args):
    """a user objective with a known optimum: minus the squared covariance with the response"""
    Z, y, h = args[0], np.asarray(args[1], float).reshape(-1), args[2]
    B = np.reshape(beta, (-1, h), order="F")
    c = (Z - Z.mean(0)).T @ (y - y.mean()) / len(y)
    return -float(((c @ B) ** 2).sum())


def k_sdr(case, mon, rng, j):
    n, p, meth = case["n"], case["p"], case["meth"]
    d = min(case["d"], p - 1) if meth != "user" else 1
    X = data.matrix(rng, n, p, case["data"])
    Zs = (X - X.mean(0)) / X.std(0)
    t = Zs @ data.unit(rng.standard_normal(p))
    y = t + 0.3 * (Zs @ data.unit(rng.standard_normal(p))) ** 2 + 0.2 * rng.standard_normal(n)
    X, y = reorder(X, y, case, j)
    ipoptstub.Problem.log = []
    sd, cd = case["scale"], case["centre"]
    kw = dict(n_components=d, scale_data=sd, center_data=cd, center=case["center"], verbose=False)
    met, fk = "euclidean", {}
    if rng.random() < 0.4:
        met = str(rng.choice(["cityblock", "chebyshev"]))
        if rng.random() < 0.6:
            kw["dmetric"] = met
            if rng.random() < 0.3:
                fk["dmetric"] = met
        else:
            fk["dmetric"] = met
    fun = quad if meth == "user" else meth
    lab = met * (met != "euclidean") + "%s d=%d p=%d scale=%s centre=%s %s" % (meth, d, p, sd, cd, case["center"])
    Z, N = whiten(X, case["center"], cd, sd)
    old = ipoptstub.Problem.maxiter
    ipoptstub.Problem.maxiter = 150
    try:
        o = mon.call("problem", lab, sudire(fun, **kw).fit, X.copy(), y.copy() if rng.random() < 0.5 else y[:, None].copy(), **fk)
    finally:
        ipoptstub.Problem.maxiter = old
    L = ipoptstub.Problem.log
    mon.event("solver_problems", len(L))
    mon.event("objective_evaluations", sum(len(q.trace) for q in L))
    mon.ok("problem", len(L) == (1 if meth == "dcov-sdr" else 2) and all(q.n == p * d for q in L), "%s: %d problems of size %s" % (lab, len(L), [q.n for q in L]))
    mon.ok("problem", all(q.m >= d * (d + 1) // 2 and not np.any(q.cl) and not np.any(q.cu) for q in L), "%s: constraints %s" % (lab, [(q.m, q.cl, q.cu) for q in L]))
    with ref.metric(met):
        handed(case, mon, L, meth, Z, y, p, d, lab, np.random.default_rng([case["seed"], 77, j]))
    if met != "euclidean":
        mon._count("metric")
    P = np.asarray(o.x_loadings_, float)
    if not mon.ok("problem", P.shape == (p, d) and np.isfinite(P).all(), "%s: basis %s" % (lab, P)):
        return
    mon.seen(lab, X)
    solved = all(q.success for q in L)
    beta = np.linalg.solve(N, P)
    M = np.eye(p) if sd else np.cov(Z, rowvar=False).reshape(p, p)
    dev = np.abs(beta.T @ M @ beta - np.eye(d)).max()
    if not solved:
        mon.event("solver_reported_failure")
        dev = 0.0
    mon.ok("constraint", dev < 1e-3, "%s: the basis violates its normalisation by %.3g" % (lab, dev))
    if not sd:
        mon.ok("unscaled", dev < 1e-3, "%s: %.3g" % (lab, dev))
    if not cd:
        mon._count("uncentred")
    if d > 1:
        mon.ok("two_components", dev < 1e-3, "%s: %.3g" % (lab, dev))
    T = X @ P
    sc = np.abs(X).max() * np.abs(P).max() * p
    mon.close("scores", o.x_scores_, T, rtol=1e-9, scale=sc, msg=lab)
    mon.close("scores", o.transform(X[:4]), T[:4], rtol=1e-9, scale=sc, msg=lab)
    if np.linalg.cond(P) < 1e5:
        Q = np.linalg.qr(P)[0]
        mon.close("projection", o.proj_mat_, Q @ Q.T, rtol=1e-6, scale=1, msg=lab)
    D = np.column_stack([np.ones(n), T])
    if np.linalg.cond(D) < 1e8:
        f = D @ np.linalg.lstsq(D, y, rcond=None)[0]
        mon.close("regression", np.asarray(o.ols_obj_.fittedvalues), f, rtol=1e-6, scale=np.abs(y).max() * 2, msg=lab)
        mon.close("predict", o.predict(X[:6]), f[:6], rtol=1e-6, scale=np.abs(y).max() * 2, msg=lab)
    if case["center"] == "median":
        return  # the distance statistics are then centred at medians and not smooth
    # optimality in the standardised coordinates
    def under(f):
        def g(B):
            with ref.metric(met):
                return f(B)
        return g

    norm = lambda B: B @ np.linalg.inv(np.linalg.cholesky(B.T @ M @ B)).T
    obj = {"dcov-sdr": lambda B: ref.dcov(Z @ B, y), "mdd-sdr": lambda B: np.sqrt(max(ref.mdd2(Z @ B, y), 0)), "user": lambda B: -quad(B.flatten(order="F"), Z, y, d)}[meth]
    obj = under(obj)
    b0 = norm(beta)
    v = obj(b0)
    near = [obj(norm(b0 + 0.1 * data.unit(rng.standard_normal(p * d)).reshape(p, d) * np.linalg.norm(b0))) for _ in range(20)]
    if cd and solved:
        tol = 0.01 if meth != "user" else 1e-3
        mon.ok("local", v >= max(near) * (1 - tol), "%s: objective %.6g, a neighbouring basis attains %.6g" % (lab, v, max(near)))
        mon._count({"dcov-sdr": "dcov", "mdd-sdr": "mdd", "user": "user_objective"}[meth])
        if meth == "dcov-sdr":
            # the bases the search starts from are not better
            for f, h in (("SIR", 6), ("SAVE", 3), ("DR", 6)):
                try:
                    B = np.asarray(getattr(sutil, f)(Z, y[:, None], h, d, "continuous", True, sd), float)
                    vb = obj(norm(N @ B if sd else B))
                except Exception:
                    continue
                L0 = L[0].x0.reshape(p, d, order="F")
                if np.allclose(L0, N @ B if sd else B, rtol=1e-6, atol=1e-9):
                    mon.ok("start_bases", v >= vb * (1 - 0.01), "%s: objective %.6g, its %s start %.6g" % (lab, v, f, vb))
        if meth == "user":
            c = (Z - Z.mean(0)).T @ (y - y.mean()) / n
            best = np.sqrt(c @ np.linalg.solve(M, c))
            mon.ok("user_objective", np.sqrt(v) >= 0.995 * best, "%s: covariance %.6g, optimum %.6g" % (lab, np.sqrt(v), best))
    if rng.random() < 0.7:
        overrides(case, mon, rng, X, y, Z, N, sd, cd, kw, lab, p)


def statistic(kind, Z, y, t=0.0, how="mean"):
    """the statistic an objective stands for, as a function of the basis"""
    if kind == "dcov":
        return lambda B: ref.dcov(Z @ B, y, False, t, how)
    if how == "median":
        D = ref.dcenter(0.5 * (y[:, None] - y[None, :]) ** 2, 0.0, "median")
        if t:
            k = int(t * len(y) ** 2)
            cut = lambda P: np.sort(P.reshape(-1))[k: P.size - k].mean()
        else:
            cut = np.mean
        return lambda B: np.sqrt(max(cut(ref.dcenter(ref.dist(Z @ B), 0.0, "median") * D), 0))
    return lambda B: np.sqrt(max(ref.mdd2_trim(Z @ B, y, t) if t else ref.mdd2(Z @ B, y), 0))


def monotone(v, s):
    o = np.argsort(s)
    tol = 1e-7 * (np.abs(v).max() + 1e-12)
    # different statistics, different values in the opposite order
    return all(v[o[i]] >= v[o[i + 1]] - tol for i in range(len(v) - 1))


def handed(case, mon, L, meth, Z, y, p, d, lab, rng):
    """the objectives handed to the solver fall where the statistics they stand for rise"""
    Bs = [rng.standard_normal((p, d)) * rng.uniform(0.5, 2) for _ in range(7)]
    for q, kind in zip(L, ["dcov", {"mdd-sdr": "mdd"}.get(meth)]):
        if kind is None:
            continue
        st = statistic(kind, Z, y, 0.0, case["center"])
        s = np.array([st(B) for B in Bs])
        v = np.array([float(np.ravel(q.obj.objective(B.flatten(order="F")))[0]) for B in Bs])
        if not np.isfinite(s).all() or np.ptp(s) < 1e-9 or (s <= 0).any() or not np.isfinite(v).all():
            mon.event("degenerate_statistic")
            continue
        mon.ok("objective_handed", monotone(v, s), "%s: the %s objective handed to the solver is %s where its statistic is %s" % (lab, kind, v, s))


def overrides(case, mon, rng, X, y, Z, N, sd, cd, kw, lab, p):
    kw = dict(kw, n_components=1)
    ipoptstub.Problem.log = []
    x0 = data.unit(rng.standard_normal(p))
    v = data.unit(rng.standard_normal(p))
    con = ({"type": "eq", "fun": lambda b: float(np.sum(np.square(b)) - 2.25)}, {"type": "eq", "fun": lambda b, w: float(b @ w), "args": (v,)})
    seen = []

    def user(beta, *args):
        seen.append((args, np.array(beta, float)))
        return -float(np.reshape(beta, -1) @ args[1])

    a = rng.standard_normal(p)
    # arguments of the user's own: both stages receive them, so the first stage objective must be able to use them too
    args = (Z, y[:, None], 1, N, False, 0, "mean", "euclidean", False)
    o = mon.call("user_start", lab, sudire(quad, optimizer_start=x0, optimizer_constraints=con, optimizer_arguments=args, **kw).fit, X.copy(), y.copy())
    L = ipoptstub.Problem.log
    mon.close("user_start", L[0].x0, x0, rtol=1e-12, msg=lab)
    mon.ok("user_constraints", all(q.m == 2 for q in L), "%s: %s constraints instead of the two given" % (lab, [q.m for q in L]))
    b = np.linalg.solve(N, np.asarray(o.x_loadings_, float)[:, 0])
    mon.ok("user_constraints", abs(b @ b - 2.25) < 1e-3 and abs(b @ v) < 1e-3, "%s: user constraints violated: |b|^2=%.4g, b'v=%.3g" % (lab, b @ b, b @ v))
    # arguments: twice the response gives twice the covariance, seen by the user objective
    got = []

    def spy(beta, *ar):
        got.append(ar)
        return quad(beta, *ar)

    args2 = (Z, 2 * y[:, None], 1, N, False, 0, "mean", "euclidean", False, "extra")
    sudire(spy, optimizer_arguments=args2, **kw).fit(X.copy(), y.copy())
    mon.ok("user_arguments", got and all(len(g) == 10 and g[-1] == "extra" and np.array_equal(g[1], args2[1]) for g in got), "%s: the user objective was not given the user's arguments" % lab)
    got2 = []

    def spy2(beta, *ar):
        got2.append(ar)
        return quad(beta, *ar)

    sudire(spy2, **kw).fit(X.copy(), y.copy())
    ok = got2 and all(np.asarray(g[0]).shape == Z.shape and g[2] == 1 for g in got2)
    mon.ok("user_arguments", ok, "%s: default arguments of the user objective" % lab)
    if ok:
        mon.close("user_arguments", got2[0][0], Z, rtol=1e-6, scale=np.abs(Z).max(), msg=lab + ": data seen by the objective")
        mon.close("user_arguments", np.asarray(got2[0][1], float).reshape(-1), y, rtol=1e-12, msg=lab + ": response seen by the objective")


def k_recover(case, mon, rng, j):
    p, n = case["p"], 80
    A = rng.standard_normal((p, p)) + 2 * np.eye(p)
    X = rng.standard_normal((n, p)) @ A + rng.uniform(-3, 3, p)
    b = np.linalg.solve(A, data.unit(rng.standard_normal(p)))
    if np.linalg.cond(A) > 20:
        return
    t = (X - X.mean(0)) @ b
    y = t + 0.1 * rng.standard_normal(n)
    X, y = reorder(X, y, case, j)
    t = t[np.random.default_rng([case["seed"], j]).permutation(n)] if j else t
    P = np.asarray(sudire(case["meth"], n_components=1, verbose=False).fit(X, y).x_loadings_, float)
    c = abs(np.corrcoef(X @ P[:, 0], t)[0, 1])
    mon.ok("recovery", c > 0.9, "%s: correlation %.3f with the true index" % (case["meth"], c))
    mon.seen(X)


def k_solver(case, mon, rng):
    """minimize_ipopt: what the solver is given and what comes back"""
    p = case["p"]
    A = rng.standard_normal((p, p))
    H = A @ A.T + np.eye(p)
    c = rng.standard_normal(p)
    f = lambda x, s=1.0, shift=0.0: float(s * (0.5 * x @ H @ x + c @ x) + shift)
    g = lambda x, s=1.0, shift=0.0: s * (H @ x + c)
    x0 = rng.standard_normal(p)
    s = float(rng.uniform(0.5, 2))
    conv = int(rng.integers(4))
    style = {}
    if conv == 0:
        style, fun = {}, f
    elif conv == 1:
        style, fun = {"jac": g}, f
    elif conv == 2:
        style, fun = {"jac": True}, lambda x, s=1.0, shift=0.0: (f(x, s, shift), g(x, s, shift))
    else:
        style, fun = {"kwargs": {"shift": 3.0}, "jac": g}, f
    a = np.ones(p) / np.sqrt(p)
    ckind = int(rng.integers(5))
    dj = bool(rng.random() < 0.5)
    mk = lambda d: dict(d, jac=lambda x, *r: np.atleast_2d(a)) if dj else d
    cons = [(), mk({"type": "eq", "fun": lambda x: x @ a - 0.5}), [mk({"type": "ineq", "fun": lambda x: x @ a - 1.0})],
            ({"type": "eq", "fun": lambda x, k: x @ a - k, "args": (0.25,)}, {"type": "ineq", "fun": lambda x: np.array([x[0] + 5.0, 5.0 - x[0]])}),
            [{"type": "ineq", "fun": lambda x, u, k: u @ x - k, "args": (a, -0.5)}]][ckind]
    nb = bool(rng.random() < 0.4)
    bounds = [(-2.0 - i, 2.0 + i) for i in range(p)] if nb else None
    ol = [None, {}, {"maxiter": 30}, {"disp": 2, "maxiter": 25}, {"max_iter": 12, "tol": 1e-5}, {"mu_strategy": "monotone", "acceptable_tol": 1e-3}, {"print_level": 3, "hessian_approximation": "exact"}]
    oi = int(rng.integers(len(ol)))
    opts = None if ol[oi] is None else dict(ol[oi])
    tol = float(rng.choice([1e-6, 1e-4])) if rng.random() < 0.3 else None
    lab = "p=%d conv=%d constraint=%d bounds=%s options=%s tol=%s" % (p, conv, ckind, nb, opts, tol)
    ipoptstub.Problem.log = []
    r = mon.call("problem", lab, minimize_ipopt, fun, x0.copy(), args=(s,), constraints=cons, bounds=bounds, options=opts, tol=tol, **style)
    q = ipoptstub.Problem.log[-1]
    mon.event("solver_problems")
    mon.seen(lab, x0)
    m = [0, 1, 1, 3, 1][ckind]
    mon.ok("problem", q.n == p and q.m == m and np.array_equal(q.x0, x0), "%s: problem n=%s m=%s start %s" % (lab, q.n, q.m, q.x0))
    ecl = np.zeros(m)
    ecu = {0: [], 1: [0], 2: [1e19], 3: [0, 1e19, 1e19], 4: [1e19]}[ckind]
    mon.ok("constraint_bounds", np.array_equal(np.asarray(q.cl, float), ecl) and np.array_equal(np.asarray(q.cu, float) >= 1e18, np.asarray(ecu, float) >= 1e18) and
           all(u == 0 for u, e in zip(np.asarray(q.cu, float), ecu) if e == 0), "%s: constraint bounds %s %s" % (lab, q.cl, q.cu))
    if nb:
        mon.ok("bounds", list(q.lb) == [b[0] for b in bounds] and list(q.ub) == [b[1] for b in bounds], "%s: bounds %s %s" % (lab, q.lb, q.ub))
    else:
        mon.ok("bounds", q.lb is None and q.ub is None or (np.all(np.asarray(q.lb, float) <= -1e18) and np.all(np.asarray(q.ub, float) >= 1e18)), "%s: bounds out of nowhere" % lab)
    txt = lambda v: v.decode() if isinstance(v, bytes) else v
    got = {txt(k): txt(v) for k, v in q.options.items()}
    want = {"print_level": 0, "tol": tol or 1e-8, "mu_strategy": "adaptive", "hessian_approximation": "limited-memory"}
    for k, v in (opts or {}).items():
        want[{"disp": "print_level", "maxiter": "max_iter"}.get(k, k)] = v
    mon.ok("options", got == want, "%s: solver options %s, expected %s" % (lab, got, want))
    mon.ok("options", opts == ol[oi], "%s: the caller's options were changed to %s" % (lab, opts))
    # derivatives and values the solver sees
    sh = 3.0 if conv == 3 else 0.0
    for _ in range(3):
        x = rng.standard_normal(p)
        mon.close("arguments", [q.obj.objective(x.copy())], [f(x, s, sh)], rtol=1e-12, scale=1 + abs(f(x, s, sh)), msg=lab)
        mon.close("gradient", q.obj.gradient(x.copy()), g(x, s), rtol=1e-5, scale=1 + np.abs(g(x, s)).max() + abs(f(x, s, sh)), msg=lab)
        mon._count({0: "gradient", 1: "jac_function", 2: "jac_true", 3: "jac_function"}[conv])
        if m:
            cv, cj = {1: ([x @ a - 0.5], [a]), 2: ([x @ a - 1.0], [a]), 3: ([x @ a - 0.25, x[0] + 5, 5 - x[0]], [a, np.eye(p)[0], -np.eye(p)[0]]), 4: ([a @ x + 0.5], [a])}[ckind]
            mon.close("constraint_arguments", q.obj.constraints(x.copy()), cv, rtol=1e-12, scale=10, msg=lab)
            mon.close("constraint_jacobian", np.asarray(q.obj.jacobian(x.copy()), float).reshape(m, p), np.array(cj), rtol=1e-5, scale=10, msg=lab)
    # values and derivatives alternate between points: nothing is mixed up
    xa, xb = rng.standard_normal(p), rng.standard_normal(p)
    v = [q.obj.objective(xa.copy()), q.obj.gradient(xb.copy()), q.obj.objective(xb.copy()), q.obj.gradient(xa.copy())]
    mon.close("arguments", [v[0], v[2]], [f(xa, s, sh), f(xb, s, sh)], rtol=1e-12, scale=1 + abs(f(xa, s, sh)) + abs(f(xb, s, sh)), msg=lab + " alternating")
    mon.close("gradient", np.concatenate([v[1], v[3]]), np.concatenate([g(xb, s), g(xa, s)]), rtol=1e-5, scale=10 + np.abs(g(xb, s)).max() + np.abs(g(xa, s)).max(), msg=lab + " alternating")
    # steps that hardly move, as near convergence
    xc = rng.standard_normal(p)
    q.obj.objective(xc.copy()), q.obj.gradient(xc.copy())
    for e in (1e-6, 1e-8, 1e-10):
        xd = xc + e * rng.choice([-1.0, 1.0], p)
        vd = [q.obj.objective(xd.copy()), np.array(q.obj.gradient(xd.copy()), float)]
        mon.ok("arguments", abs(float(np.ravel(vd[0])[0]) - f(xd, s, sh)) <= 1e-15 * (10 + 100 * p * np.abs(H).max() * (1 + np.abs(xd).max()) ** 2), "%s: a step of %g gives the objective %r, not %r" % (lab, e, vd[0], f(xd, s, sh)))
        if conv:
            mon.close("gradient", vd[1], g(xd, s), rtol=1e-13, scale=10 + 10 * np.abs(g(xd, s)).max() + p * np.abs(H).max() * np.abs(xd).max(), msg=lab + " tiny step")
    # a return to the start
    v = [q.obj.objective(xb.copy()), q.obj.objective(x0.copy()), q.obj.gradient(xa.copy()), q.obj.gradient(x0.copy())]
    mon.close("arguments", v[1], f(x0, s, sh), rtol=1e-12, scale=1 + abs(f(x0, s, sh)), msg=lab + " back at the start")
    mon.close("gradient", v[3], g(x0, s), rtol=1e-5, scale=10 + np.abs(g(x0, s)).max(), msg=lab + " back at the start")
    # the result
    mon.close("result", r.x, q.solution, rtol=0, atol=0, msg=lab)
    mon.ok("result", r.success == (r.status == 0) and abs(r.fun - f(np.asarray(r.x), s, sh)) < 1e-9 * (1 + abs(r.fun)), "%s: result fields %s" % (lab, {k: r[k] for k in ("fun", "status", "success")}))
    mon.ok("counts", r.nfev >= 1 and r.njev >= (0 if conv == 2 else 1) and r.nit >= 1 and r.nfev >= len(q.trace) * (conv != 2), "%s: counts nfev=%s njev=%s nit=%s for %d evaluations" % (lab, r.nfev, r.njev, r.nit, len(q.trace)))
    if r.success and not nb:
        if ckind in (0, 1):
            if ckind == 0:
                want = np.linalg.solve(H, -c)
            else:
                K = np.block([[H, a[:, None]], [a[None, :], np.zeros((1, 1))]])
                want = np.linalg.solve(K, np.append(-c, 0.5))[:p]
            mon.close("exact_solution", r.x, want, rtol=1e-2, scale=1 + np.abs(want).max(), msg=lab)
    if p == 1:
        r1 = minimize_ipopt(lambda x: float((np.asarray(x).reshape(-1)[0] - 2) ** 2), 0.3)
        mon.ok("scalar", np.ndim(r1.x) == 0 and abs(r1.x - 2) < 1e-3, "scalar start gives %r" % (r1.x,))


def k_jac(case, mon, rng):
    p, m = case["p"], case["m"]
    A, B = rng.standard_normal((m, p)), rng.standard_normal((m, p))

    calls = []

    def fun(x, k=1.0, shift=0.0):
        calls.append(np.array(x, float))
        v = np.sin(A @ x) * k + (B @ x) ** 2 + shift
        return v if m > 1 else v[0]

    def true(x, k=1.0):
        return k * np.cos(A @ x)[:, None] * A + 2 * (B @ x)[:, None] * B

    eps = float(rng.choice([1e-6, 1e-7]))
    F = jacmod.FunctionWithApproxJacobian(fun, eps, verbose=False)
    C = jacmod.FunctionWithApproxJacobianCentral(fun, 1e-5, verbose=False)
    k = float(rng.uniform(0.5, 2))
    for _ in range(3):
        x = rng.standard_normal(p)
        x1 = x.copy()
        J = np.asarray(mon.call("approx_jacobian", "jac", F.jac, x, k), float)
        sc = 1 + np.abs(true(x, k)).max()
        curv = 10 * (np.abs(A).sum() ** 2 + np.abs(B).sum() ** 2 + 1) * (eps + 1e-15 / eps)
        mon.close("approx_jacobian", J.reshape(m, p), true(x, k), rtol=1e-6, atol=curv, scale=sc, msg="forward differences p=%d m=%d" % (p, m))
        mon.ok("approx_jacobian", J.shape == (m, p), "jacobian of shape %s" % (J.shape,))
        mon.close("approx_jacobian", F(x, k), fun(x, k), rtol=1e-12, scale=1 + np.abs(fun(x, k)).max(), msg="value")
        Jc = np.asarray(mon.call("central_jacobian", "jac", C.jac, x, k), float)
        mon.close("central_jacobian", Jc.reshape(m, p), true(x, k), rtol=1e-6, atol=1e-4 * eps + 1e-9 * (np.abs(A).sum() ** 3 + 1) + 1e-9 * np.abs(fun(x, k)).max(), scale=sc, msg="central differences")
        mon.ok("approx_jacobian", np.array_equal(x, x1), "the point was changed")
    mon.event("function_evaluations", len(calls))
    mon.seen(A, B)


def k_objfun(case, mon, rng):
    """the objectives themselves: decreasing in the statistic they stand for"""
    n, p, d = case["n"], case["p"] + 1, min(case["d"], case["p"])
    X = rng.standard_normal((n, p))
    y = X[:, 0] + 0.5 * rng.standard_normal(n)
    Bs = [rng.standard_normal((p, d)) for _ in range(6)]
    t = float(rng.choice([0, 0, 0.1])) if n > 8 else 0.0
    how = str(rng.choice(["mean", "mean", "median"]))
    met = str(rng.choice(["euclidean", "cityblock", "chebyshev"]))
    if how == "median":
        t = 0.0
    args = (X, y[:, None], d, np.eye(p), False, t, how, met, False)
    for nm in ("dcov_trim", "mdd_trim"):
        f = getattr(sutil, nm, None)
        if f is None:
            mon.event("objective_renamed")
            continue
        v = np.array([float(np.ravel(f(B.flatten(order="F"), *args))[0]) for B in Bs])
        with ref.metric(met):
            st = statistic(nm[:-5], X, y, t, how)
            s = np.array([st(B) for B in Bs])
        if np.isfinite(v).all() and (s > 0).all():
            mon.ok("objective_functions", monotone(v, s), "%s (trimming %g, %s, %s) does not decrease with its statistic: %s for %s" % (nm, t, how, met, v, s))
        # reordering the cases does not change it
        pr = rng.permutation(n)
        if not np.isfinite(v[0]):
            continue
        v2 = float(np.ravel(f(Bs[0].flatten(order="F"), X[pr], y[pr][:, None], *args[2:]))[0])
        mon.close("objective_functions", [v2], [v[0]], rtol=1e-9, msg=nm)
    mon.seen(X)
