"""Reference models of the (robust, sparse) partial least squares family."""
import numpy as np
from scipy.stats import chi2, norm

import ref


def loc(how, X):
    if how == "mean":
        return np.nanmean(X, axis=0)
    if how == "median":
        return np.nanmedian(X, axis=0)
    if how == "None":
        return np.zeros(X.shape[1])
    from api import VersatileScaler  # decided by C01/C02

    return np.asarray(VersatileScaler(center=how, scale="None").fit(X).col_loc_, float).reshape(-1)


def sca(how, X, center):
    if how == "std":
        return np.nanstd(X, axis=0)
    if how == "mad":
        return ref.cols(ref.r_mad, X)
    if how == "None":
        return np.ones(X.shape[1])
    from api import VersatileScaler

    return np.asarray(VersatileScaler(center=center, scale=how).fit(X).col_sca_, float).reshape(-1)


def one(s):
    return np.where(s == 0, 1.0, s)


def standardize(X, center, scale):
    m, s = loc(center, X), sca(scale, X, center)
    return (X - m) / one(s), m, s


class Snipls:
    """Sparse NIPALS on standardised data (missing cells contribute nothing)."""

    def __init__(self, Xs, ys, eta, h):
        n, p = Xs.shape
        M = np.isnan(Xs)
        ym = np.isnan(ys)
        X0 = np.where(M, 0.0, Xs)
        y0 = np.where(ym, 0.0, ys)
        Xi, yi = X0.copy(), y0.copy()
        act = np.zeros(p, bool)
        W, P, T, C, xe, ye = [], [], [], [], [], []
        self.margin = np.inf  # distance of the selection rule to a tie
        self.active = []
        for _ in range(h):
            w = Xi.T @ yi
            w = w / np.sqrt((w ** 2).sum())
            g = np.abs(w) - eta * np.abs(w).max()
            if eta > 0:
                self.margin = min(self.margin, np.abs(g[~act]).min() if (~act).any() else np.inf)
                # the sign of an already selected variable's weight is decided by rounding when that weight vanishes
                self.margin = min(self.margin, np.abs(w[act]).min() if act.any() else np.inf)
            act = act | (g > 0)
            w = np.where(act, g * np.sign(w), 0.0)
            t = Xi @ w
            tt = t @ t
            c = (yi @ t) / tt
            q = Xi.T @ t / tt
            Xi = np.where(M, 0.0, Xi - np.outer(t, q))
            yi = np.where(ym, 0.0, yi - t * c)
            q = np.where(act, q, 0.0)
            W.append(w), P.append(q), T.append(t), C.append(c)
            xe.append(100 * tt * (q @ q) / (X0 ** 2).sum())
            ye.append(100 * tt * c * c / (y0 ** 2).sum())
            self.active.append(act.copy())
        self.W, self.P, self.T = np.array(W).T, np.array(P).T, np.array(T).T
        self.C, self.xev, self.yev = np.array(C), np.array(xe), np.array(ye)
        G = self.W.T @ (X0.T @ X0) @ self.W
        self.cond = max(np.linalg.cond(G), np.linalg.cond(self.P.T @ self.W))
        self.R = self.W @ np.linalg.inv(self.P.T @ self.W)
        self.B = self.W @ np.linalg.solve(G, self.W.T @ (X0.T @ y0))
        self.grew = any((self.active[0] != a).any() for a in self.active)


def snipls(X, y, eta, h, centre="mean", scale="None", mx=None):
    """full model on raw data -> dict of documented results (mx: location to take for given, when an optimiser finds it)"""
    y = y.reshape(-1)
    given = mx
    Xs, mx, sx = standardize(X, centre, scale)
    if given is not None:
        mx = given
        Xs = (X - mx) / one(sx)
    ys, my, sy = standardize(y[:, None], centre, scale)
    m = Snipls(Xs, ys[:, 0], eta, h)
    coef = m.B * one(sy)[0] / one(sx)
    lin = np.nansum(X * coef, axis=1)
    r = y - lin
    b0 = {"mean": np.nanmean, "None": lambda v: 0.0}.get(centre, np.nanmedian)(r)
    return dict(m=m, coef=coef, intercept=b0, fitted=lin + b0, resid=y - lin - b0, Xs=Xs, mx=mx, sx=sx, my=my[0], sy=sy[0])


def weights(fun, x, c, b, r):
    if fun == "Fair":
        return ref.w_fair(x, c)
    if fun == "Huber":
        return ref.w_huber(x, c)
    return ref.w_hampel(x, c, b, r)


def brokenstick(k):
    return np.array([sum(1.0 / j for j in range(i, k + 1)) / k for i in range(1, k + 1)])


def resid_scale(r):
    a = np.abs(r)
    if len(r) / 2 > (r == 0).sum():
        return 1.4826 * np.median(a)
    return 1.4826 * np.median(a[a != 0])


def start_y(y, ys, centre, scale, signed):
    if (centre, scale) == ("median", "mad"):
        return np.abs(ys)
    d = (y - np.median(y)) / (1.4826 * np.median(np.abs(y - np.median(y))))
    return d if signed else np.abs(d)


def cutoffs(P, mode, df):
    y = tuple(norm.ppf(P))
    return (tuple(chi2.ppf(P, df)) if mode == "specific" else y), y


def sprm(X, y, h, eta, fun, probs, centre, scale, maxit, tol, mode, init, signed):
    """Partial robust M: iteratively reweighted sparse PLS.  Returns a dict with
    the final state and the margins of every discrete decision taken."""
    y = y.reshape(-1)
    n, p = X.shape
    if scale == "scaleTau2" and (ref.cols(ref.r_mad, X) == 0).any():
        scale = "mad"
    Xs, mx, sx = standardize(X, centre, scale)
    ys, my, sy = standardize(y[:, None], centre, scale)
    ys = ys[:, 0]
    keep = np.where(~(sx < 1e-5))[0]
    Xs, sxk, Xk = Xs[:, keep], sx[keep], X[:, keep]
    p = len(keep)
    margin = np.inf
    if init == "pcapp":
        U, S, _ = np.linalg.svd(Xs)
        spc = S ** 2 / (S ** 2).sum()
        diff = spc - brokenstick(min(n, p))
        margin = min(margin, np.abs(diff).min() * 1e3)
        k = max(int(np.where(diff <= 0)[0][0]), 1)
        if k < len(S):
            margin = min(margin, (spc[k - 1] - spc[k]) * 1e3)
        A = standardize(U[:, :k], centre, scale)[0]
        df = k
    else:
        A, df = Xs, p
    d = np.sqrt((A ** 2).sum(1))
    d = d / np.median(d)
    cx, cy = cutoffs(probs, mode, df)
    wx = weights(fun, d, *cx)
    wy = weights(fun, start_y(y, ys, centre, scale, signed), *cy)
    we = np.maximum(wx * wy, 1e-6)
    tscale = "mad" if scale == "None" else scale
    rold, diff, it = 1e-5, 1.0, 1
    cond, zero = 0.0, np.array([], int)
    trace = []
    broke = False
    while diff > tol and it <= maxit:
        rt = np.sqrt(we)
        sn = snipls(Xs * rt[:, None], ys * rt, eta, h, "mean", "None")
        m = sn["m"]
        if h > 1 or eta > 0:
            margin = min(margin, m.margin)
        cond = max(cond, m.cond)
        T = m.T / rt[:, None]
        b = m.B
        r = ys - sn["fitted"]
        u = np.abs(r) / resid_scale(r)
        dt = standardize(T, centre, tscale)[0]
        v = np.sqrt((dt ** 2).sum(1))
        v = v / np.median(v)
        if fun == "Hampel":
            cx = tuple(chi2.ppf(probs, h))
        wt, wy = weights(fun, v, *cx), weights(fun, u, *cy)
        bb = (b ** 2).sum()
        diff = abs(bb - rold) / rold
        rold = bb
        margin = min(margin, abs(diff - tol) / max(tol, 1e-300) * 2e-4)  # 5% off the threshold
        we = wy * wt
        margin = min(margin, np.abs(we - 1e-6).min() * 1e6)
        zero = np.where(we < 1e-6)[0]
        we = np.maximum(we, 1e-6)
        trace.append(len(zero))
        if len(zero) >= n / 2:
            broke = True
            break
        it += 1
    for a in (we, wt, wy):
        a[zero] = 0
    coef = b * one(sy)[0] / sxk
    lin = Xk @ coef
    red = {"mean": np.mean, "None": lambda v: 0.0}.get(centre, np.median)
    b0 = red(y - lin)
    if scale != "None":
        b0s = (np.mean if centre == "mean" else np.median)(ys - Xs @ b)
    else:
        b0s = red(y - Xk @ b)
    return dict(
        m=m, coef=coef, intercept=b0, b=b, b0s=b0s, fitted=lin + b0, resid=y - lin - b0, w=we, wx=wt, wy=wy, keep=keep, R=m.R,
        T=Xs @ m.R, mx=mx, sx=sx, my=my[0], sy=sy[0], iters=it, margin=margin, cond=cond, trace=trace, cx=cx, cy=cy, broke=broke,
        diff=diff,
    )


def rmreg(X, y, fun, probs, centre, scale, maxit, tol, mode):
    y = y.reshape(-1)
    n, p = X.shape
    Xs, mx, sx = standardize(X, centre, scale)
    ys, my, sy = standardize(y[:, None], centre, scale)
    ys = ys[:, 0]
    cx, cy = cutoffs(probs, mode, p)
    d = np.sqrt((Xs ** 2).sum(1))
    d = d / np.median(d)
    wx = weights(fun, d, *cx)
    wy = weights(fun, start_y(y, ys, centre, scale, False), *cy)
    we = np.maximum(wx * wy, 1e-6)
    rold, diff, it = 1e-5, 1.0, 1
    margin, cond = np.inf, 0.0
    trace = []
    broke = False
    while diff > tol and it <= maxit:
        rt = np.sqrt(we)
        A = Xs * rt[:, None]
        cond = max(cond, np.linalg.cond(A) ** 2)
        b = np.linalg.lstsq(A, ys * rt, rcond=None)[0]
        r = ys - Xs @ b
        wy = weights(fun, np.abs(r) / resid_scale(r), *cy)
        bb = (b ** 2).sum()
        diff = abs(bb - rold) / rold
        rold = bb
        margin = min(margin, abs(diff - tol) / max(tol, 1e-300) * 2e-4)  # 5% off the threshold
        we = wy * wx
        margin = min(margin, np.abs(we - 1e-6).min() * 1e6)
        zero = np.where(we < 1e-6)[0]
        we = np.maximum(we, 1e-6)
        trace.append(len(zero))
        if len(zero) >= n / 2:
            broke = True
            break
        it += 1
    wx = wx.copy()
    for a in (we, wx, wy):
        a[zero] = 0
    coef = b * one(sy)[0] / one(sx)
    lin = X @ coef
    b0 = (np.mean if centre == "mean" else np.median)(y - lin)
    b0s = (np.mean if centre == "mean" else np.median)((ys - Xs @ b) if scale != "None" else (y - X @ b))
    return dict(coef=coef, intercept=b0, b=b, b0s=b0s, fitted=lin + b0, resid=y - lin - b0, w=we, wx=wx, wy=wy, mx=mx, sx=sx, my=my[0],
                sy=sy[0], iters=it, margin=margin, cond=cond, trace=trace, broke=broke, diff=diff, cx=cx, cy=cy)
