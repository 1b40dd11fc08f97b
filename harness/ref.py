"""Independent reference definitions (plain loops / sorting, float64)."""
import math

import numpy as np
from scipy.stats import chi2, norm

MADC = float(norm.ppf(0.75))


# ---- univariate location and scale ----------------------------------------
def r_mean(v, trim=0.0):
    v = np.asarray(v, float)
    if trim == 0:
        v = v[~np.isnan(v)]
        return math.fsum(v) / len(v)
    s = np.sort(v)
    k = int(trim * len(s))
    s = s[k: len(s) - k]
    return math.fsum(s) / len(s)


def r_median(v):
    v = np.asarray(v, float)
    s = np.sort(v[~np.isnan(v)])
    m = len(s)
    return s[m // 2] if m % 2 else (s[m // 2 - 1] + s[m // 2]) / 2


def r_std(v, trim=0.0):
    v = np.asarray(v, float)
    if trim == 0:
        v = v[~np.isnan(v)]
        m = math.fsum(v) / len(v)
        return math.sqrt(math.fsum((v - m) ** 2) / len(v))
    return math.sqrt(r_mean((v - r_mean(v, trim)) ** 2, trim))


def r_mad(v, c=MADC):
    return r_median(np.abs(np.asarray(v, float) - r_median(v))) / c


def r_tau2(v, c1=4.5, c2=3.0, consistency=True):
    """Maronna-Zamar tau scale of one column."""
    v = np.asarray(v, float)
    v = v[~np.isnan(v)]
    n = len(v)
    med = r_median(v)
    s0 = r_median(np.abs(v - med))
    if c1 > 0:
        u = np.abs(v - med) / (s0 * c1)
        w = np.maximum(1 - u ** 2, 0) ** 2
        mu = math.fsum(v * w) / math.fsum(w)
    else:
        mu = med
    rho = np.minimum(((v - mu) / s0) ** 2, c2 ** 2)
    den = n
    if consistency:
        b = c2 * norm.ppf(0.75)
        e = 2 * ((1 - b * b) * norm.cdf(b) - b * norm.pdf(b) + b * b) - 1
        den = (n - 2 if consistency == "finiteSample" else n) * e
    return s0 * math.sqrt(math.fsum(rho) / den)


def cols(f, X, *a, **k):
    return np.array([f(X[:, j], *a, **k) for j in range(X.shape[1])])


def l1_obj(a, X):
    return math.fsum(np.sqrt(((X - a) ** 2).sum(1)))


def r_l1median(X, it=5000, tol=1e-13):
    """Weiszfeld with Vardi-Zhang correction."""
    m = np.median(X, axis=0)
    for _ in range(it):
        d = np.sqrt(((X - m) ** 2).sum(1))
        nz = d > 1e-14 * (1 + np.abs(m).max())
        if not nz.any():
            return m
        w = 1 / d[nz]
        T = (X[nz] * w[:, None]).sum(0) / w.sum()
        eta = (~nz).sum()
        if eta:
            R = ((X[nz] - m) * w[:, None]).sum(0)
            r = np.linalg.norm(R)
            if r <= eta:
                return m
            T = (1 - eta / r) * T + (eta / r) * m
        if np.linalg.norm(T - m) <= tol * (1 + np.abs(T).max()):
            return T
        m = T
    return m


def r_kstep(X, start, maxit=5, tol=1e-10):
    n = X.shape[0]
    m = np.array(start, float)
    for _ in range(maxit):
        d = ((X - m) ** 2).sum(1)
        cut = np.sort(d)[(n + 1) // 2 - 1]
        new = X[d <= cut].mean(0)
        done = np.max(np.abs(new - m)) <= tol
        m = new
        if done:
            break
    return m


# ---- generalized spatial sign ---------------------------------------------
def r_radial(name, d, p):
    """Radial factors; returns (factors, ambiguous mask) where ambiguous marks
    distances so close to a discontinuity that rounding decides."""
    d = np.asarray(d, float).reshape(-1)
    n = len(d)
    h = (n + p + 1) // 2 - 1
    amb = np.zeros(n, bool)
    if name == "ss":
        return 1 / np.maximum(d, 1e-10), amb
    hm = np.sort(d)[h]
    if name == "winsor":
        return np.where(d > hm, hm / np.where(d > 0, d, 1), 1.0), amb
    if name == "quad":
        return np.where(d > hm, (hm / np.where(d > 0, d, 1)) ** 2, 1.0), amb
    q = d ** (2 / 3)
    qm = np.sort(q)[h]
    qd = np.sort(np.abs(q - qm))[h]

    def near(c):
        return np.abs(d - c) <= 1e-9 * max(c, 1e-300)

    if name == "ball":
        c = qm ** 1.5
        return np.where(d > c, 0.0, 1.0), near(c)
    if name == "shell":
        lo = max(0.0, qm - qd) ** 1.5
        hi = (qm + qd) ** 1.5
        return np.where((d < lo) | (d > hi), 0.0, 1.0), near(lo) | near(hi) | (np.abs(d - lo) <= 1e-12 * hi)
    if name == "linear_redescending":
        c0 = qm ** 1.5
        c1 = (qm + 1.4826 * qd) ** 1.5
        f = np.ones(n)
        mid = (d > c0) & (d <= c1)
        f[mid] = 1 - (d[mid] - c0) / (c1 - c0)
        f[d > c1] = 0
        if c1 - c0 <= 1e-6 * c1:
            amb = near(c0) | near(c1) | ((d >= c0 * (1 - 1e-9)) & (d <= c1 * (1 + 1e-9)))
        return f, amb
    raise ValueError(name)


# ---- wrapping ---------------------------------------------------------------
def r_psi(z):
    b, c, q1, q2 = 1.5, 4.0, 1.540793, 0.8622731
    z = np.asarray(z, float)
    a = np.abs(z)
    return np.where(a < b, z, np.where(a < c, np.sign(z) * q1 * np.tanh(q2 * (c - a)), 0.0))


def r_wrap(X, loc, sca):
    s = np.where(np.asarray(sca, float) == 0, 1.0, sca)
    return loc + s * r_psi((X - loc) / s)


# ---- M-estimation weights ----------------------------------------------------
def w_fair(x, c):
    return 1 / (1 + np.abs(x / (2 * c))) ** 2


def w_huber(x, c):
    x = np.asarray(x, float)
    return np.where(x <= c, 1.0, c / np.where(x == 0, 1, np.abs(x)))


def w_hampel(x, a, b, r):
    x = np.asarray(x, float)
    ax = np.where(x == 0, 1, np.abs(x))
    out = np.where(
        x <= a, 1.0, np.where(x <= b, a / ax, np.where(x <= r, a * (r - x) / ((r - b) * ax), 0.0))
    )
    return np.where(np.isnan(x), np.nan, out)


# ---- product moments ---------------------------------------------------------
def tmean(v, t=0.0):
    v = np.sort(np.asarray(v, float).reshape(-1))
    k = int(t * len(v))
    v = v[k: len(v) - k]
    return math.fsum(v) / len(v)


def central(x, y, a, b, t=0.0):
    """trimmed mean of (x-m_x)^a (y-m_y)^b"""
    x = np.asarray(x, float).reshape(-1)
    y = np.asarray(y, float).reshape(-1)
    return tmean((x - tmean(x, t)) ** a * (y - tmean(y, t)) ** b, t)


def fs_factor(k, n, t):
    """finite sample factor of a k-th order central (co-)moment"""
    m = round(n * (1 - t))
    if k == 2:
        return m / (m - 1)
    if k == 3:
        return m * m / ((m - 1) * (m - 2))
    if k == 4:
        return m * m / ((m - 2) * (m - 3))
    raise ValueError(k)


# ---- energy statistics ---------------------------------------------------------
def dist(x):
    x = np.asarray(x, float)
    if x.ndim == 1:
        x = x[:, None]
    n = len(x)
    D = np.zeros((n, n))
    for i in range(n):
        if METRIC == "cityblock":
            D[i] = np.abs(x - x[i]).sum(1)
        elif METRIC == "chebyshev":
            D[i] = np.abs(x - x[i]).max(1)
        else:
            D[i] = np.sqrt(((x - x[i]) ** 2).sum(1))
    return D


METRIC = "euclidean"


class metric:
    """with metric('cityblock'): distances of that kind"""

    def __init__(self, name):
        self.name = name

    def __enter__(self):
        global METRIC
        self.old, METRIC = METRIC, self.name

    def __exit__(self, *a):
        global METRIC
        METRIC = self.old


def dcenter(D, t=0.0, how="mean"):
    if how == "mean":
        r = np.array([tmean(row, t) for row in D])
        g = tmean(D, t)
    else:
        r = np.array([r_median(row) for row in D])
        g = r_median(D.reshape(-1))
    return D - r[:, None] - r[None, :] + g


def ucenter(D, t=0.0):
    n = len(D)
    if t:
        m = np.round(n * (1 - t))
        r = np.array([tmean(row, t) for row in D]) * m / (m - 2)
        g = tmean(D, t) * m * m / ((m - 1) * (m - 2))
    else:
        r = D.sum(1) / (n - 2)
        g = D.sum() / ((n - 1) * (n - 2))
    U = D - r[:, None] - r[None, :] + g
    np.fill_diagonal(U, 0.0)
    return U


def dcov(x, y, bias=False, t=0.0, how="mean"):
    """distance covariance: root of the (absolute, when unbiased) squared statistic"""
    if bias:
        n = len(np.asarray(x))
        if t:
            m = np.round(n * (1 - t))
            return math.sqrt(abs(tmean(ucenter(dist(x), t) * ucenter(dist(y), t), t) * m / (m - 3)))
        return math.sqrt(abs((ucenter(dist(x)) * ucenter(dist(y))).sum() / (n * (n - 3))))
    P = dcenter(dist(x), t, how) * dcenter(dist(y), t, how)
    if how == "median":
        return r_median(P.reshape(-1))
    return math.sqrt(abs(tmean(P, t)))


def mdd2(x, y, bias=False):
    """squared martingale difference divergence of y given x (Shao and Zhang 2014)"""
    y = np.asarray(y, float).reshape(-1)
    D = dist(x)
    n = len(y)
    if not bias:
        c = y - y.mean()
        return -float(c @ D @ c) / n ** 2
    return float((ucenter(D) * ucenter(0.5 * (y[:, None] - y[None, :]) ** 2)).sum() / (n * (n - 3)))


def mdd2_trim(x, y, t, bias=False):
    """the same with trimmed double centring and a trimmed inner product"""
    y = np.asarray(y, float).reshape(-1)
    c = ucenter if bias else dcenter
    P = np.sort((c(dist(x), t) * c(0.5 * (y[:, None] - y[None, :]) ** 2, t)).reshape(-1))
    k = int(t * len(P))
    P = P[k: len(P) - k]
    m = math.sqrt(len(P))
    return float(P.sum() / (m * (m - 3) if bias else m * m))


def mddm(X, Y):
    C = Y - Y.mean(0)
    return -(C.T @ dist(X) @ C) / len(X) ** 2
