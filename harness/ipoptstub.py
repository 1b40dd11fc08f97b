"""A stand-in for the optional cyipopt package (not installable offline).

It solves the problem object the wrapper builds with scipy's SLSQP, using only
the callbacks a real solver would use, and records every problem, option and
callback so that monitors can check the traffic."""
import numpy as np
from scipy.optimize import minimize


class Problem:
    log = []
    maxiter = 40

    def __init__(self, n, m, problem_obj, lb=None, ub=None, cl=None, cu=None):
        self.n, self.m, self.obj, self.lb, self.ub, self.cl, self.cu = n, m, problem_obj, lb, ub, cl, cu
        self.options = {}
        self.trace = []
        Problem.log.append(self)

    def add_option(self, key, value):
        self.options[key] = value

    addOption = add_option

    def setProblemScaling(self, *a, **k):
        pass

    def solve(self, x0):
        x0 = np.array(x0, float)
        self.x0 = x0.copy()
        lb = np.full(self.n, -1e19) if self.lb is None else np.asarray([-1e19 if v is None else v for v in self.lb], float)
        ub = np.full(self.n, 1e19) if self.ub is None else np.asarray([1e19 if v is None else v for v in self.ub], float)
        cons = []
        if self.m:
            cl, cu = np.asarray(self.cl, float), np.asarray(self.cu, float)
            eq = np.where(cl == cu)[0]
            lo = np.where((cl != cu) & (cl > -1e18))[0]
            up = np.where((cl != cu) & (cu < 1e18))[0]
            c = lambda x: np.asarray(self.obj.constraints(x), float).reshape(-1)
            J = lambda x: np.asarray(self.obj.jacobian(x), float).reshape(self.m, self.n)
            # constraints given twice (symmetric entries) make the system singular
            if len(eq):
                j0 = np.round(J(x0 + 1e-3 * np.arange(1, self.n + 1)), 6)
                keep = [k for k in eq if not any((j0[k] == j0[l]).all() and abs(c(x0)[k] - c(x0)[l]) < 1e-9 for l in eq if l < k)]
                cons.append({"type": "eq", "fun": lambda x: c(x)[keep] - cl[keep], "jac": lambda x: J(x)[keep]})
            if len(lo):
                cons.append({"type": "ineq", "fun": lambda x: c(x)[lo] - cl[lo], "jac": lambda x: J(x)[lo]})
            if len(up):
                cons.append({"type": "ineq", "fun": lambda x: cu[up] - c(x)[up], "jac": lambda x: -J(x)[up]})
        b = [(None if l < -1e18 else l, None if u > 1e18 else u) for l, u in zip(lb, ub)]

        def f(x):
            v = float(np.asarray(self.obj.objective(x)).reshape(-1)[0])
            self.trace.append((x.copy(), v))
            return v

        g = lambda x: np.asarray(self.obj.gradient(x), float).reshape(-1)
        r = minimize(f, x0, jac=g, bounds=b, constraints=cons, method="SLSQP", options={"maxiter": Problem.maxiter})
        if hasattr(self.obj, "intermediate"):
            self.obj.intermediate(0, int(r.nit), float(r.fun), 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0)
        self.solution = r.x.copy()
        self.success = bool(r.success)
        return r.x, {"status": 0 if r.success else -1, "status_msg": str(r.message).encode(), "obj_val": float(r.fun), "mult_g": np.zeros(self.m), "g": None}


problem = Problem


def install(ipw):
    import sys

    me = sys.modules[__name__]
    ipw.CYIPOPT_INSTALLED = True
    ipw.cyipopt = me
