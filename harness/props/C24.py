"""Plots show the model's own numbers."""
import matplotlib

matplotlib.use("Agg")
import matplotlib.colors as mc
import matplotlib.pyplot as plt
import numpy as np
import pandas as pd
from matplotlib.markers import MarkerStyle
from sklearn.model_selection import GridSearchCV, KFold

import data
import zoo
from api import ppdire_plot, robust_loss, sprm, sprm_plot, sprm_plot_cv, sudire_plot
from sklearn.metrics import make_scorer

RULE = (
    "fitted sparse robust regression, projection pursuit and sufficient dimension reduction models with and without outliers, dropped columns and new cases; every plot drawn on an in-memory canvas and read back: "
    "point positions, colours and markers per weight class, bar heights, annotations, reference line, titles and tick labels compared with the fitted results, and the model compared before and after; "
    "non-trivial = a distinct (model, plot, option) triple"
)
ASSUMPTIONS = ["the fitted results, predictions and weights of new cases are trusted here (decided by C09, C14, C16, C18)", "legends are checked for the class they describe only, not for their wording"]
CLAUSES = ["yyp_training", "yyp_new", "yyp_diagonal", "yyp_classes", "projection_training", "projection_new", "projection_components", "projection_classes", "coefficients", "coefficient_labels", "truncation", "entity",
           "caseweights_training", "caseweights_new", "weight_mode", "annotations", "annotations_new", "title", "background", "onlyval", "markers", "model_unchanged", "refused", "contour", "frames", "legend"]

COL = ["#f0f0f0", "#fafafa", "#1010f0", "#20c020", "#303030", "#f0a010", "#f01010", "#a010a0"]


def gen(rng, tier):
    reps = 60 if tier == "quick" else 1200
    for i in range(reps):
        for nm in ("sprm", "ppdire", "sudire"):
            yield {"kind": nm, "n": int(rng.choice([12, 20, 31])), "p": int(rng.integers(2, 6)), "data": str(rng.choice(["corr", "gauss", "outliers"])), "new": bool(i % 3), "onlyval": bool(i % 3 == 2), "frame": bool(rng.random() < 0.4),
                   "markers": bool(rng.random() < 0.5), "dropped": bool(rng.random() < 0.25)}
    for i in range(max(6, reps // 10)):
        yield {"kind": "cv", "n": 30, "p": 4}


# ---- reading a figure back -------------------------------------------------
def rgba(c):
    return tuple(np.round(mc.to_rgba(c), 6))


def points(ax):
    """(x, y, (face colour, contour colour), marker path) of every scattered point"""
    out = []
    for c in ax.collections:
        if not hasattr(c, "get_offsets") or not len(c.get_offsets()) or type(c).__name__ != "PathCollection":
            continue
        xy = np.ma.filled(np.ma.asarray(c.get_offsets(), float), np.nan)
        fc = np.asarray(c.get_facecolor())
        for i, (u, v) in enumerate(xy):
            col = tuple(np.round(fc[i % len(fc)], 6)) if len(fc) else None
            ec = np.asarray(c.get_edgecolor())
            out.append((u, v, (col, tuple(np.round(ec[i % len(ec)], 6)) if len(ec) else None), c.get_paths()[i % len(c.get_paths())]))
    return out


def marker_is(path, m):
    ms = MarkerStyle(m)
    q = ms.get_path().transformed(ms.get_transform())
    return path.vertices.shape == q.vertices.shape and np.allclose(path.vertices, q.vertices)


def bars(ax):
    """(centre, height, colour) of the visible bars"""
    out = []
    for r in ax.patches:
        if isinstance(r, plt.Rectangle) and np.isfinite(r.get_height()):
            out.append((r.get_x() + r.get_width() / 2, r.get_height(), tuple(np.round(r.get_facecolor(), 6))))
    return out


def notes(ax):
    from matplotlib.text import Annotation

    return [(t.get_text(), tuple(map(float, t.xy))) for t in ax.texts if isinstance(t, Annotation)]


def draw(mon, clause, what, f, *a, **k):
    plt.close("all")
    shown = []
    old = plt.show
    plt.show = lambda *x, **y: shown.append(1)
    try:
        mon.call(clause, what, f, *a, **k)
    finally:
        plt.show = old
    figs = plt.get_fignums()
    if not mon.ok(clause, len(figs) == 1, "%s left %d figures" % (what, len(figs))):
        return None, None
    mon.event("figures_read")
    fig = plt.figure(figs[0])
    ax = fig.axes[0]
    mon.ok("background", rgba(fig.get_facecolor()) == rgba(COL[0]) and rgba(ax.get_facecolor()) == rgba(COL[1]), "%s: background colours" % what)
    return fig, ax


def judge(mon, clause, ax, parts, marks, what):
    """parts: list of (xy, weights or None, (regular colour, moderate colour, harsh colour))"""
    P = points(ax)
    exp = [(float(u), float(v), 0 if w is None or w[i] == 1 else 2 if w[i] == 0 else 1, c) for xy, w, c in parts for i, (u, v) in enumerate(xy)]
    if not mon.ok(clause, len(P) == len(exp), "%s: %d points drawn, %d expected" % (what, len(P), len(exp))):
        return False
    mon.event("points_read", len(P))
    left = list(exp)
    sx = max([abs(e[0]) for e in exp] + [1e-300])
    sy = max([abs(e[1]) for e in exp] + [1e-300])
    for u, v, col, path in P:
        hit = [e for e in left if abs(e[0] - u) <= 1e-9 * sx and abs(e[1] - v) <= 1e-9 * sy]
        if not mon.ok(clause, hit, "%s: a point is drawn at (%.5g, %.5g), where no case lies" % (what, u, v)):
            return False
        full = [e for e in hit if (rgba(e[3][e[2]]), rgba(COL[4])) == col and marker_is(path, marks[e[2]])]
        if not full:
            e = hit[0]
            mon.ok(clause.split("_")[0] + "_classes" if clause.split("_")[0] in ("yyp", "projection") else clause, False,
                   "%s: the case at (%.5g, %.5g) of class %d is drawn with colour %s or another marker" % (what, u, v, e[2], [c and mc.to_hex(c) for c in col]))
            return False
        left.remove(full[0])
    mon._count(clause)
    mon._count(clause.split("_")[0] + "_classes")
    mon._count("markers")
    return True


def check_notes(mon, ax, names, xy, namesv, xyv, what):
    got = notes(ax)
    exp = [(a, tuple(map(float, b))) for a, b in zip(names, xy)] + [(a, tuple(map(float, b))) for a, b in zip(namesv, xyv)]
    if names:
        mon._count("annotations")
    if namesv:
        mon._count("annotations_new")
    ok = len(got) == len(exp) and all(any(g[0] == e[0] and np.allclose(g[1], e[1], rtol=1e-9, atol=1e-12) for g in got) for e in exp)
    mon.ok("annotations" if names else "annotations_new", ok, "%s: case names at %s, expected %s" % (what, got[:3], exp[:3]))


def legend(mon, ax, what, lab, train, new):
    lg = ax.get_legend()
    if lab and mon.ok("legend", lg is not None, "%s: no legend" % what):
        t = " ".join(q.get_text() for q in lg.get_texts())
        if what.startswith("sudire"):
            return
        mon.ok("legend", ("Training" in t) == train and ("Test" in t) == new, "%s: legend %r, training %s, new %s" % (what, t, train, new))


def frozen(o):
    return zoo.results(o), {k: repr(v) for k, v in o.get_params().items()}


def run(case, mon):
    rng = data.rng_of(case)
    try:
        if case["kind"] == "cv":
            return cv(case, mon, rng)
        model(case, mon, rng)
    finally:
        plt.close("all")


def model(case, mon, rng):
    nm, n, p = case["kind"], case["n"], case["p"]
    X = data.matrix(rng, n, p, case["data"])
    y = data.response(rng, X, "linear", 0.3)
    m = int(rng.integers(1, 9)) if nm != "sprm" else int(rng.integers(4, 12))  # weights of tiny batches: recorded finding of C09
    Xv = X[rng.integers(0, n, m)] * 0.8 + X[rng.integers(0, n, m)] * 0.3
    if rng.random() < 0.5:
        Xv[0] += 30 * X.std(0)
    yv = y[rng.integers(0, n, m)] + 0.1
    drop = False
    if nm == "sprm":
        if rng.random() < 0.6:
            y[rng.choice(n, 2, replace=False)] += 25 * y.std()
        if case["dropped"] and p > 3:
            X[:, 1] = 3.0
            Xv[:, 1] = 3.0
            drop = True
        c = zoo.config(rng, nm, p - drop)
        c["kw"].update(n_components=2, scale=str(rng.choice(["mad", "std"])), centre=str(rng.choice(["median", "mean"])), fun=str(rng.choice(["Hampel", "Hampel", "Huber", "Fair"])))
    elif nm == "ppdire":
        c = zoo.config(rng, nm, p)
        c["kw"]["n_components"] = 2
    else:
        c = zoo.config(rng, nm, p)
        c["kw"].update(n_components=2, sudiremeth=str(rng.choice(["sir", "save", "dr", "phd"])))
    o = zoo.build(c)
    try:
        zoo.fit(o, c, X.copy(), (y if rng.random() < 0.5 else y[:, None]).copy())
    except Exception:
        mon.event("fit_failed")
        return
    f = np.asarray(o.ols_obj_.fittedvalues if nm == "sudire" else o.fitted_, float).reshape(-1)
    T = np.asarray(o.x_scores_, float)
    if not np.isfinite(f).all() or not np.isfinite(T).all():
        mon.event("fit_failed")
        return
    marks = ["s", "^", "P"] if case["markers"] else ["o", "d", "v"]
    cls = {"sprm": sprm_plot, "ppdire": ppdire_plot, "sudire": sudire_plot}[nm]
    g = cls(o, COL, marks) if case["markers"] else cls(o, COL)
    lab = "%s %s" % (nm, c["kw"])
    f0 = frozen(o)
    w = np.asarray(o.caseweights_, float).reshape(-1) if nm == "sprm" else None
    Xa = pd.DataFrame(Xv) if case["frame"] else Xv.copy()
    ya = pd.Series(yv, index=rng.permutation(m) + 5) if case["frame"] else (yv if rng.random() < 0.5 else yv[:, None]).copy()
    fv = np.asarray(o.predict(Xv.copy()), float).reshape(-1)
    Tv = np.asarray(o.transform(Xv.copy()), float).reshape(m, -1)
    wv = np.asarray(o.weightnewx(Xv.copy()), float).reshape(-1) if nm == "sprm" else None
    if case["frame"]:
        mon._count("frames")
    ov = case["onlyval"]
    new = case["new"]
    kw = dict(onlyval=ov)
    label = [] if rng.random() < 0.3 else "yy"
    kw["label"] = label
    title = "some title" if rng.random() < 0.6 else ""
    if title:
        kw["title"] = title
    names = ["c%d" % i for i in range(n)] if rng.random() < 0.5 and not ov else []
    namesv = ["v%d" % i for i in range(m)] if rng.random() < 0.5 and new else []
    if names:
        kw["names"] = names
    if namesv:
        kw["namesv"] = namesv
    ctr = (COL[2], COL[2], COL[6])
    cnew = (COL[5], COL[5], COL[7])
    mon.seen(lab, X, ov, new)
    if ov:
        mon._count("onlyval")

    def ttl(ax, what):
        mon.ok("title", ax.get_title() == title, "%s: title %r" % (what, ax.get_title()))

    # ---- observed against predicted
    what = "%s y plot onlyval=%s new=%s" % (lab, ov, new)
    fig, ax = draw(mon, "yyp_training", what, g.plot_yyp, **dict(kw, **(dict(ytruev=ya, Xn=Xa) if new else {})))
    if ax is None:
        return
    parts = ([] if ov else [(np.column_stack([y, f]), w, ctr)]) + ([(np.column_stack([yv, fv]), wv, cnew)] if new else [])
    judge(mon, "yyp_training" if not new else "yyp_new", ax, parts, marks, what)
    L = [l for l in ax.lines if len(l.get_xdata()) >= 2]
    mon.ok("yyp_diagonal", len(L) == 1 and np.allclose(L[0].get_xdata(), L[0].get_ydata()) and rgba(L[0].get_color()) == rgba(COL[3]) and np.ptp(np.asarray(L[0].get_xdata(), float)) > 0, "%s: no reference line y = x" % what)
    check_notes(mon, ax, names, np.column_stack([y, f]), namesv, np.column_stack([yv, fv]), what)
    legend(mon, ax, what, label, not ov, new)
    ttl(ax, what)
    # ---- scores
    comp = [[0, 1], [1, 0], [0, 0]][int(rng.integers(3))]
    what = "%s scores %s onlyval=%s new=%s" % (lab, comp, ov, new)
    fig, ax = draw(mon, "projection_training", what, g.plot_projections, **dict(kw, components=comp, **(dict(Xn=Xa) if new else {})))
    if ax is None:
        return
    mon._count("projection_components")
    parts = ([] if ov else [(T[:, comp], w, ctr)]) + ([(Tv[:, comp], wv, cnew)] if new else [])
    judge(mon, "projection_training" if not new else "projection_new", ax, parts, marks, what)
    check_notes(mon, ax, names, T[:, comp], namesv, Tv[:, comp], what)
    legend(mon, ax, what, label, not ov, new)
    ttl(ax, what)
    if nm == "sprm":
        robust(case, mon, rng, o, g, kw, lab, names, namesv, Xa, wv, n, m, p, ov, new, ttl, label)
    f1 = frozen(o)
    bad = zoo.same(f0[0], f1[0])
    mon.ok("model_unchanged", not bad and f0[1] == f1[1], "%s: plotting changed %s" % (lab, bad))
    other = {"sprm": ppdire_plot, "ppdire": sudire_plot, "sudire": sprm_plot}[nm]
    mon.rejects("refused", "%s: only new cases asked for, but none given" % lab, g.plot_projections, onlyval=True)
    mon.rejects("refused", "%s: only new cases asked for, but none given" % lab, g.plot_yyp, onlyval=True)
    if nm == "sprm":
        mon.rejects("refused", "%s: only new cases asked for, but none given" % lab, g.plot_caseweights, onlyval=True)
        mon.rejects("refused", "%s: unknown weights" % lab, g.plot_caseweights, mode="z")
    mon.rejects("refused", "%s handed to %s" % (nm, other.__name__), other, o, COL)


def robust(case, mon, rng, o, g, kw, lab, names, namesv, Xa, wv, n, m, p, ov, new, ttl, label):
    # ---- case weights
    mode = str(rng.choice(["overall", "x", "y"]))
    what = "%s weights mode=%s onlyval=%s new=%s" % (lab, mode, ov, new)
    fig, ax = draw(mon, "caseweights_training", what, g.plot_caseweights, **dict(kw, **(dict(Xn=Xa) if new else {}), **({"mode": mode} if mode != "overall" or rng.random() < 0.5 else {})))
    if ax is None:
        return
    wc = np.asarray({"overall": o.caseweights_, "x": o.x_caseweights_, "y": o.y_caseweights_}[mode], float).reshape(-1)
    mon._count("weight_mode")
    exp = ([] if ov else [(i + 1, wc[i], rgba(COL[2])) for i in range(n)]) + ([((0 if ov else n) + j + 1, wv[j], rgba(COL[5])) for j in range(m)] if new else [])
    B = sorted(bars(ax))
    c = "caseweights_new" if new else "caseweights_training"
    if mon.ok(c, len(B) == len(exp), "%s: %d bars, %d expected" % (what, len(B), len(exp))):
        mon.ok(c, all(abs(b[0] - e[0]) < 1e-6 and abs(b[1] - e[1]) < 1e-9 and b[2] == e[2] for b, e in zip(B, sorted(exp))), "%s: bars %s, expected %s" % (what, B[:3], sorted(exp)[:3]))
        mon.event("bars_read", len(B))
    check_notes(mon, ax, names, [(i + 1, wc[i]) for i in range(n)], namesv, [((0 if ov else n) + j + 1, wv[j]) for j in range(m)], what)
    legend(mon, ax, what, label, not ov, new)
    ttl(ax, what)
    # ---- coefficients
    keep = np.asarray(o.non_zero_scale_vars_, int).reshape(-1)
    cols = ["var%d" % i for i in range(p)] if rng.random() < 0.6 else []
    ent = str(rng.choice(["coef_", "coef_scaled_"]))
    b = np.asarray(getattr(o, ent), float).reshape(-1)
    if len(b) == p != len(keep):
        b = b[keep]
    trunc = float(rng.choice([0, 0, 0.3, 0.5]))
    k2 = {k: v for k, v in kw.items() if k == "title"}
    what = "%s %s truncation=%s columns=%s" % (lab, ent, trunc, bool(cols))
    fig, ax = draw(mon, "coefficients", what, g.plot_coeffs, **dict(k2, entity=ent, truncation=trunc, columns=cols))
    if ax is None:
        return
    mon._count("entity")
    B = sorted(bars(ax))
    q = len(keep)
    k = int(np.ceil(q * trunc / 2))
    srt = np.sort(b)
    want = b if not trunc else np.concatenate([srt[:k], srt[max(q - k, k):]])
    if not mon.ok("truncation" if trunc else "coefficients", len(B) == len(want), "%s: %d bars, %d expected" % (what, len(B), len(want))):
        return
    mon.close("truncation" if trunc else "coefficients", [v[1] for v in B], want, rtol=1e-9, scale=np.abs(b).max() + 1e-300, msg=what)
    mon.ok("coefficients", all(v[2] == rgba(COL[2]) for v in B), "%s: colour of the bars" % what)
    if cols:
        fig.canvas.draw()
        tk = {round(float(a), 6): t.get_text() for a, t in zip(ax.get_xticks(), ax.get_xticklabels())}
        for v in B:
            t = tk.get(round(v[0], 6))
            ok = t in cols and int(t[3:]) in keep and abs(b[list(keep).index(int(t[3:]))] - v[1]) <= 1e-9 * (np.abs(b).max() + 1e-300)
            if not mon.ok("coefficient_labels", ok, "%s: the bar of height %.5g is labelled %r" % (what, v[1], t)):
                break
    ttl(ax, what)


def cv(case, mon, rng):
    n, p = case["n"], case["p"]
    X = data.matrix(rng, n, p, "corr")
    y = data.response(rng, X, "linear", 0.3)
    gs = GridSearchCV(sprm(verbose=False, maxit=20), {"n_components": [1, 2, 3], "eta": [0.1, 0.4, 0.7]}, cv=KFold(3), scoring=make_scorer(robust_loss, greater_is_better=False, lfun=__import__("sklearn.metrics", fromlist=["x"]).mean_squared_error))
    gs.fit(X, y)
    g = sprm_plot_cv(gs, COL)
    rec = []
    import matplotlib.axes as ma

    old = ma.Axes.tricontour, ma.Axes.tricontourf

    def wrap(f):
        def inner(ax, *a, **k):
            rec.append([np.asarray(v, float) for v in a[:3]])
            return f(ax, *a, **k)
        return inner

    ma.Axes.tricontour, ma.Axes.tricontourf = map(wrap, old)
    try:
        for rep in range(2):
            rec.clear()
            fig, ax = draw(mon, "contour", "contour", g.eta_ncomp_contour, **({} if rep else {"title": "tt"}))
            if ax is None:
                return
            if not mon.ok("contour", len(rec) == 1, "no contour was drawn"):
                return
            got = np.column_stack(rec[0])
            R = gs.cv_results_
            e = np.column_stack([np.asarray(R["param_eta"], float), np.asarray(R["param_n_components"], float), np.asarray(R["mean_test_score"], float)])
            e = e[np.isfinite(e[:, 2])]
            same_ax = lambda A, B: A.shape == B.shape and np.allclose(A[np.lexsort(A.T[:2])], B[np.lexsort(B.T[:2])], rtol=1e-9, atol=1e-12)
            mon.ok("contour", same_ax(got, e) or same_ax(got[:, [1, 0, 2]], e) or same_ax(got * [1, 1, -1], e), "contour data %s, cross-validation results %s" % (got[:3], e[:3]))
            mon.ok("title", ax.get_title() == ("SPRM Cross-Validation Contour Plot" if rep else "tt"), "contour title %r" % ax.get_title())
    finally:
        ma.Axes.tricontour, ma.Axes.tricontourf = old
    mon.seen(X)
