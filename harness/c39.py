"""Diagnostic plots draw the documented points, thresholds, labels and ellipses."""
import math

import matplotlib.pyplot as plt
import numpy as np
from scipy import stats

from symrob.runner import Scenario
from harness.c28 import stand_in
from harness.c22 import X1, X2, Y, fitted
from harness.common import adj_, cov_, det_, mad_, quad_

FUNCTIONS = ["covariance.cellmcd.CellMCD.cell_MCD_plot", "covariance.utils.cellmcd_visualization_utils.annote_outliers",
             "covariance.utils.cellmcd_visualization_utils.annote_outliers_ellipse", "covariance.utils.cellmcd_visualization_utils.draw_ellipse",
             "covariance.utils.cellmcd_visualization_utils.get_thresholds", "covariance.utils.cellmcd_visualization_utils.draw_threshold_lines",
             "covariance.base.RobustCovariance.distance_distance_plot", "outliers.ddc.DDC.cellmap", "regression.base.RobustRegression.outlier_map",
             "pca.base.RobustPCA.plot_outlier_map", "univariate.adjusted_boxplot.adjusted_boxplot"]
STUBS = ["matplotlib axes and seaborn heatmap: recording stand-ins", "the fitted models: given estimates, residuals and predictions (their computation is decided by other properties)",
         "location and scale of the drawn variable: OneStepWrapping itself (decided under C05)"]
BOUNDS = ("n=5..12 observations, p=2..3 variables; one or two plotted values free in [-1000, 1000] (every side of every threshold), "
          "missing cells, several quantiles, all plot types")
BUDGET = 90
NAN = float("nan")


class Ax:
    def __init__(self):
        self.calls = []

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)

        def call(*a, **kw):
            self.calls.append((k, a, kw))
            return self
        return call

    def points(self):
        out = []
        for k, a, kw in self.calls:
            if k == "scatter":
                v = list(a[:2]) + [kw[c] for c in ("x", "y")[len(a[:2]):]]
                out.append(tuple(list(np.asarray(c).reshape(-1)) for c in v))
        return out

    def lines(self, name):
        c = {"axhline": "y", "axvline": "x"}[name]
        return [a[0] if a else kw[c] for k, a, kw in self.calls if k == name]

    def slopes(self):
        return [(a[0] if a else kw["xy1"], kw.get("slope")) for k, a, kw in self.calls if k == "axline"]

    def texts(self):
        return [(a[0], a[1], a[2]) for k, a, kw in self.calls if k in ("text", "annotate")]

    def curves(self):
        return [(list(a[0]), list(a[1])) for k, a, kw in self.calls if k == "plot"]


def recorder(ctx):
    made = []

    def sub(*a, **k):
        made.append(Ax())
        return made[-1], made[-1]

    real = plt.subplots
    plt.subplots = sub
    ctx.cleanup.append(lambda: setattr(plt, "subplots", real))
    return made


def miss(v):
    return isinstance(v, float) and v != v


def same(ctx, a, b):
    """the expected number, or missing where it is"""
    return ctx.is_nan(a) if miss(b) else ctx.eq(a, b)


def drawn(ctx, made, x, y, what="one point per observation at its coordinates"):
    ctx.check(len(made) == 1 and len(made[0].points()) == 1, "one figure with one cloud of points")
    px, py = made[0].points()[0]
    ctx.check(len(px) == len(py) == len(x), "one point per observation")
    ctx.check(ctx.all([same(ctx, u, v) for u, v in zip(px + py, list(x) + list(y))]), what)
    return made[0]


def lines(ctx, got, want, what):
    ctx.check(len(got) == len(want), "number of threshold lines")
    if len(want) == 2 and len(got) == 2:
        ctx.check((ctx.eq(got[0], want[0], 1e-7) & ctx.eq(got[1], want[1], 1e-7)) | (ctx.eq(got[0], want[1], 1e-7) & ctx.eq(got[1], want[0], 1e-7)), what)
    elif len(want) == 1 and len(got) == 1:
        ctx.check(ctx.eq(got[0], want[0], 1e-7), what)


# ---- cell MCD

RES = [[0.3, -0.8, 1.1], [-1.9, 0.4, 0.2], [2.4, -3.1, 0.6], [0.1, 0.9, -2.2], [-0.7, 5.5, 1.3], [1.2, -0.2, -0.4], [-4.0, 0.5, 0.8], [0.6, 1.4, -1.0]]
PRE = [[0.2, 1.1, -0.4], [0.8, 0.3, 0.9], [-0.5, -1.2, 0.1], [1.6, 0.7, -0.6], [-1.1, 0.2, 1.4], [0.4, -0.9, 0.5], [4.5, 0.1, -1.3], [-0.2, 0.6, 0.3]]
OBS = [[0.5, 0.6, 0.3], [-0.9, 0.7, 1.0], [1.4, -3.6, 0.4], [1.7, 1.3, -2.0], [-1.6, 4.4, 2.1], [1.1, -1.0, 0.2], [0.9, 0.5, -0.8], [0.2, 1.5, -0.4]]
COV = [[2.0, 0.5, -0.25], [0.5, 1.0, 0.3], [-0.25, 0.3, 1.5]]
LOC = [0.25, -0.5, 0.125]


def model(ctx, free, n, p, quantile, holes=()):
    from robpy.covariance import CellMCD

    D = {}
    for name, T in (("residuals", RES), ("predictions", PRE), ("X", OBS)):
        D[name] = [[NAN if (i, j) in holes and name != "predictions" else ctx.const(T[i][j]) for j in range(p)] for i in range(n)]
    for k, (name, i, j) in enumerate(free):
        D[name][i][j] = ctx.real(f"z{k}", lo=-1000, hi=1000)
    m = CellMCD(quantile=quantile)
    for name in D:
        setattr(m, name, ctx.array(D[name]))
    m.W = np.ones((n, p))
    m.covariance_ = ctx.array([[ctx.const(v) for v in r[:p]] for r in COV[:p]])
    m.location_ = ctx.array([ctx.const(v) for v in LOC[:p]])
    m.n_features_in_ = p
    return m, D


def limits(ctx, xs, c):
    from robpy.univariate import OneStepWrapping

    e = OneStepWrapping().fit(ctx.array(xs), ignore_nan=True)
    return e.location - c * e.scale, e.location + c * e.scale


def labels(ctx, ax, names, x, y, hlim, vlim):
    """exactly the points beyond a threshold carry their own name, at their own place"""
    T = ax.texts()
    shown = [t[2] for t in T]
    ctx.check(len(set(shown)) == len(shown) and set(shown) <= set(names), "labels are case names, at most one per point")
    for i, nm in enumerate(names):
        if miss(x[i]) or miss(y[i]):
            continue
        beyond, within = [], []
        for v, lim in ((y[i], hlim), (x[i], vlim)):
            if lim is not None:
                beyond += [ctx.le(v, lim[0] + 1e-9), ctx.ge(v, lim[1] - 1e-9)]
                within += [ctx.ge(v, lim[0] - 1e-9), ctx.le(v, lim[1] + 1e-9)]
        if nm in shown:
            t = T[shown.index(nm)]
            ctx.check(ctx.any(beyond), "only points beyond a threshold are labelled")
            ctx.check(ctx.eq(t[0], x[i]) & ctx.eq(t[1], y[i]), "the label stands at its own point")
        else:
            ctx.check(ctx.all(within), "every point beyond a threshold is labelled")


def cellplot(ctx, plottype, free, n=7, p=2, var=0, second=None, quantile=0.99, aq=None, holes=(), named=True):
    made = recorder(ctx)
    m, D = model(ctx, free, n, p, quantile, holes)
    names = [f"case {chr(97 + i)}" for i in range(n)]
    kw = dict(row_names=list(names)) if named else {}
    if aq is not None:
        kw["annotation_quantile"] = aq
    if second is not None:
        kw["second_variable"] = second
    if plottype != "indexplot" or aq is not None:
        kw["plottype"] = plottype
    m.cell_MCD_plot(var, **kw)
    col = {k: [r[var] for r in D[k]] for k in D}
    c = math.sqrt(stats.chi2.ppf(quantile, 1))
    ca = math.sqrt(stats.chi2.ppf(quantile if aq is None else aq, 1))
    if plottype == "indexplot":
        x, y, h, v, ha, va = list(range(n)), col["residuals"], (-c, c), None, (-ca, ca), None
    else:
        x = {"residuals_vs_variable": col["X"], "bivariate": col["X"]}.get(plottype, col["predictions"])
        if plottype == "bivariate":
            y = [r[second] for r in D["X"]]
        else:
            y = col["X"] if plottype == "variable_vs_predictions" else col["residuals"]
        v, va = limits(ctx, x, c), limits(ctx, x, ca)
        if plottype in ("bivariate", "variable_vs_predictions"):
            h, ha = limits(ctx, y, c), limits(ctx, y, ca)
        else:
            h, ha = (-c, c), (-ca, ca)
    ax = drawn(ctx, made, x, y)
    lines(ctx, ax.lines("axhline"), list(h), "horizontal thresholds at the requested quantile")
    lines(ctx, ax.lines("axvline"), [] if v is None else list(v), "vertical thresholds at the requested quantile")
    if plottype == "variable_vs_predictions":
        s = ax.slopes()
        ctx.check(len(s) == 1 and s[0][1] == 1, "identity line")
        ctx.check(ctx.eq(s[0][0][0], s[0][0][1]), "identity line")
    if not named:
        ctx.check(not ax.texts(), "no labels without case names")
    elif plottype != "bivariate":
        labels(ctx, ax, names, x, y, ha, va)
    else:
        ix = [var, second]
        C = [[COV[a][b] for b in ix] for a in ix]
        r2 = stats.chi2.ppf(quantile if aq is None else aq, 2)
        shown = [t[2] for t in ax.texts()]
        ctx.check(len(set(shown)) == len(shown) and set(shown) <= set(names), "labels are case names, at most one per point")
        for i, nm in enumerate(names):
            if miss(x[i]) or miss(y[i]):
                continue
            q = quad_([x[i] - LOC[var], y[i] - LOC[second]], adj_(C)) / det_(C)
            if nm in shown:
                t = ax.texts()[shown.index(nm)]
                ctx.check(ctx.ge(q, r2 - 1e-6), "only points outside the ellipse are labelled")
                ctx.check(ctx.eq(t[0], x[i]) & ctx.eq(t[1], y[i]), "the label stands at its own point")
            else:
                ctx.check(ctx.le(q, r2 + 1e-6), "every point outside the ellipse is labelled")
    ctx.check(ctx.all([same(ctx, getattr(m, k)[i, j], D[k][i][j]) for k in D for i in range(n) for j in range(p)]), "the model is unchanged")


def ellipse(ctx, which, quantile, direct):
    """tolerance ellipse: every drawn point has squared distance chi2.ppf(quantile, 2)"""
    made = recorder(ctx)
    a, c, b = 2.0, 0.75, 1.0
    d = ctx.real("d", lo=0.5, hi=4) if which != "b" else ctx.const(a)
    o = ctx.real("o", lo=-0.5, hi=0.5) if which == "b" else ctx.const(b / 2)
    S = [[d, o], [o, ctx.const(c)]]
    mu = [ctx.real("m", lo=-1000, hi=1000), ctx.const(-0.5)]
    if direct:
        from robpy.covariance.utils.cellmcd_visualization_utils import draw_ellipse

        ax = Ax()
        draw_ellipse(ctx.array(S), ctx.array(mu), ax, quantile)
    else:
        m, D = model(ctx, (), 6, 3, quantile)
        F = [[S[0][0], ctx.const(0.1), S[0][1]], [ctx.const(0.1), ctx.const(1), ctx.const(0.2)], [S[1][0], ctx.const(0.2), S[1][1]]]
        m.covariance_ = ctx.array(F)
        m.location_ = ctx.array([mu[0], ctx.const(9), mu[1]])
        m.cell_MCD_plot(0, second_variable=2, plottype="bivariate")
        ax = made[0]
    cur = ax.curves()
    ctx.check(len(cur) == 1 and len(cur[0][0]) == len(cur[0][1]) >= 50, "one closed curve")
    X, Yv = cur[0]
    N = len(X)
    r2 = float(stats.chi2.ppf(quantile, 2))
    if which == "a":
        ctx.check(ctx.eq(X[0], X[-1], 1e-6) & ctx.eq(Yv[0], Yv[-1], 1e-6), "the curve is closed")
    A, dt = adj_(S), S[0][0] * S[1][1] - S[0][1] * S[0][1]
    pts = sorted({0, 1, N // 8, N // 5, N // 4, N // 3, N // 2, 2 * N // 3, N - 2})
    for i in pts:
        q = quad_([X[i] - mu[0], Yv[i] - mu[1]], A)
        ctx.check(ctx.eq(q, r2 * dt, 1e-6), "points of the curve lie on the tolerance ellipse")
    k = N // 2
    if which != "a":
        return
    ctx.check(ctx.all([ctx.eq(X[i] + X[i + k], 2 * mu[0], 1e-6) & ctx.eq(Yv[i] + Yv[i + k], 2 * mu[1], 1e-6) for i in (0, N // 8, N // 3)]), "the curve goes round the centre")


# ---- distance-distance plot

def ddplot(ctx, n, p, free, pct, how):
    """any estimator: robust against classical distances with their common threshold"""
    from robpy.covariance.base import RobustCovariance

    made = recorder(ctx)
    rows = [[ctx.const(v) for v in OBS[i][:p]] for i in range(n)]
    rows[free[0]][free[1]] = ctx.real("z", lo=-1000, hi=1000)
    C = [[ctx.const(v) for v in r[:p]] for r in COV[:p]]
    mu = [ctx.const(v) for v in LOC[:p]]

    class Given(RobustCovariance):
        def calculate_covariance(self, X):
            self.location_ = ctx.array(mu)
            return ctx.array(C)

    X = ctx.frame(rows, [f"v{j}" for j in range(p)]) if how == "frame" else ctx.array(rows)
    if how == "ogk":
        from robpy.covariance import OGK

        m = OGK(reweighting=False).fit(X)
        mu, C = list(m.location_), [list(r) for r in m.covariance_]
    else:
        m = Given().fit(X)
    if pct == 0.975:
        m.distance_distance_plot()
    else:
        m.distance_distance_plot(pct)
    cmu, cC = cov_(rows)
    for d in (det_(cC), det_(C)):
        if not ctx.if_(d, ">", 1e-9):
            ctx.stop()
    ctx.check(len(made) == 1 and len(made[0].points()) == 1, "one figure with one cloud of points")
    ax = made[0]
    px, py = ax.points()[0]
    ctx.check(len(px) == len(py) == n, "one point per observation")
    for i in range(n):
        q, r = quad_([a - b for a, b in zip(rows[i], cmu)], adj_(cC)), quad_([a - b for a, b in zip(rows[i], mu)], adj_(C))
        ctx.check(ctx.ge(px[i], 0) & ctx.eq(px[i] * px[i] * det_(cC), q, 1e-6), "horizontal: distances from the sample mean and covariance")
        ctx.check(ctx.ge(py[i], 0) & ctx.eq(py[i] * py[i] * det_(C), r, 1e-6), "vertical: distances from the robust estimates")
    t = math.sqrt(stats.chi2.ppf(pct, p))
    lines(ctx, ax.lines("axhline"), [t], "chi-square threshold")
    lines(ctx, ax.lines("axvline"), [t], "chi-square threshold")
    s = ax.slopes()
    ctx.check(len(s) == 1 and s[0][1] == 1 and s[0][0][0] == s[0][0][1], "identity line")


# ---- regression outlier map, PCA outlier map

def regmap(ctx, n, p, vt, pct, rs):
    made = recorder(ctx)
    rows = [[ctx.const(v) for v in (X1[i], X2[i])[:p]] for i in range(n)]
    y = [ctx.const(Y[i]) for i in range(n)]
    y[2] = ctx.real("z", lo=-1000, hi=1000)
    kw = {} if vt == 2.5 else dict(vertical_outlier_threshold=vt, leverage_threshold_percentile=pct)
    res, std, dist, v, lev = stand_in(ctx).outlier_map(ctx.array(rows), ctx.array(y), robust_scaling=rs, robust_distance=False, return_data=True, **kw)
    ax = drawn(ctx, made, np.asarray(dist).reshape(-1), np.asarray(std).reshape(-1), "the returned distances and standardized residuals are drawn")
    lines(ctx, ax.lines("axhline"), [-vt, vt], "residual thresholds on both sides")
    lines(ctx, ax.lines("axvline"), [math.sqrt(stats.chi2.ppf(pct, p))], "leverage threshold")


def pcamap(ctx, p, n):
    from harness.c35 import fixed

    made = recorder(ctx)
    m, C, mu = fixed(ctx, p)
    rows = [[ctx.const(v) for v in OBS[i][:p]] for i in range(n)]
    t = ctx.real("t", lo=-1000, hi=1000)
    rows[1] = [mu[j] + t * C[j][0] for j in range(p)]
    sd, od, sc, oc = m.plot_outlier_map(ctx.array(rows), return_distances=True)
    ax = drawn(ctx, made, list(sd), list(od), "score distances against orthogonal distances, as returned")
    lines(ctx, ax.lines("axvline"), [sc], "cutoff of the score distances")
    lines(ctx, ax.lines("axhline"), [oc], "cutoff of the orthogonal distances")


# ---- adjusted boxplot

def bxp(ctx, n, cols, i, frame, own_ax):
    from robpy.univariate import adjusted_boxplot

    made = recorder(ctx)
    A = [-40.0, 0.0, 1.0, 2.0, 3.0, 4.0, 6.0, 9.0, 60.0, 2.5, 3.5][:n]
    T = [[ctx.const(v if j == 0 else 1 - v / 2) for v in A] for j in range(cols)]
    T[0][i] = ctx.real("x", lo=-1000, hi=1000)
    X = ctx.array([list(r) for r in zip(*T)])
    names = ["u", "v"][:cols]
    if frame:
        X = ctx.frame(X, names)
    kw = {}
    if own_ax:
        kw["ax"] = Ax()
        made.append(kw["ax"])
    r = adjusted_boxplot(X, plot=True, **kw)
    ctx.check(len(made) == 1, "drawn once, on the given axes if any")
    calls = [(a, k) for nm, a, k in made[0].calls if nm == "bxp"]
    ctx.check(len(calls) == 1, "drawn once, on the given axes if any")
    st = calls[0][0][0] if calls[0][0] else calls[0][1]["bxpstats"]
    ctx.check(len(st) == cols, "one box per variable")
    for j in range(cols):
        b, s = r[j], st[j]
        ctx.check(ctx.all([ctx.eq(s["med"], b.median), ctx.eq(s["q1"], b.q1), ctx.eq(s["q3"], b.q3), ctx.eq(s["whislo"], b.lower_whisker), ctx.eq(s["whishi"], b.upper_whisker)]),
                  "the drawn box is the returned one")
        if frame:
            ctx.check(str(s["label"]) == names[j], "boxes carry the names of their columns")
        out = [v for v in T[j] if ctx.if_(v, "<", b.lower_whisker) or ctx.if_(v, ">", b.upper_whisker)]
        fl = list(np.asarray(s["fliers"]).reshape(-1))
        ctx.check(len(fl) == len(out), "the fliers are the observations beyond the whiskers")
        if len(fl) == len(out):
            ctx.check(ctx.all([ctx.eq(u, v) for u, v in zip(fl, out)]), "the fliers are the observations beyond the whiskers")


# ---- DDC cell map

def cellmap(ctx, n, p, rows=None, cols=None, given=True, annotate=False, vmax=None):
    import pandas as pd
    import robpy.outliers.ddc as mod
    from robpy.outliers.ddc import DDC

    made = recorder(ctx)
    seen = []
    real = mod.sns
    mod.sns = type("sns", (), {"heatmap": staticmethod(lambda *a, **k: seen.append((a, k)) or k.get("ax"))})
    ctx.cleanup.append(lambda: setattr(mod, "sns", real))
    cn, rn = list("abc"[:p]), [f"r{i}" for i in range(n)]
    D = [[ctx.const(OBS[i][j]) for j in range(p)] for i in range(n)]
    R = [[ctx.const(RES[i][j]) for j in range(p)] for i in range(n)]
    D[1][0] = ctx.real("x", lo=-1000, hi=1000)
    R[2][1] = ctx.real("r", lo=-1000, hi=1000)
    X = ctx.frame(D, cn, index=rn)
    m = DDC()
    m.is_fitted_ = True
    if given:
        m.standardized_residuals_ = ctx.array([[ctx.const(99)] * p for _ in range(n)])
        kw = dict(standardized_residuals=ctx.array(R))
    else:
        m.standardized_residuals_ = ctx.array(R)
        kw = {}
    ri, ci = list(range(n)), list(range(p))
    if rows is not None:
        if isinstance(rows, tuple):
            kw["row_zoom"] = rows
            ri = ri[rows[0]:rows[1]]
        else:
            kw["row_zoom"] = pd.Index([rn[i] for i in rows])
            ri = list(rows)
    if cols is not None:
        if isinstance(cols, tuple):
            kw["col_zoom"] = cols
            ci = ci[cols[0]:cols[1]]
        else:
            kw["col_zoom"] = pd.Index([cn[j] for j in cols])
            ci = list(cols)
    if vmax is not None:
        kw["vmax_clip"] = vmax
    if annotate:
        kw["annotate"] = True
    m.cellmap(X, **kw)
    ctx.check(len(seen) == 1, "one heat map")
    a, k = seen[0]
    data = a[0] if a else k["data"]
    ctx.check(list(data.index) == [rn[i] for i in ri] and list(data.columns) == [cn[j] for j in ci], "the selected rows and columns, under their names")
    V = data.to_numpy()
    ctx.check(V.shape == (len(ri), len(ci)), "the selected rows and columns, under their names")
    ctx.check(ctx.all([ctx.eq(V[u, v], R[i][j]) for u, i in enumerate(ri) for v, j in enumerate(ci)]), "colours follow the standardized residuals")
    an = k.get("annot")
    if annotate:
        T = np.asarray(an)
        ctx.check(T.shape == V.shape, "annotations show the original cells")
        ctx.check(ctx.all([ctx.eq(T[u, v], D[i][j]) for u, i in enumerate(ri) for v, j in enumerate(ci)]), "annotations show the original cells")
    else:
        ctx.check(an is None or an is False, "no annotations unless asked for")
    top = math.sqrt(stats.chi2.ppf(0.999, 1)) if vmax is None else vmax
    ctx.check(abs(float(k["vmin"]) + top) < 1e-9 and abs(float(k["vmax"]) - top) < 1e-9, "symmetric colour range")
    cm = k["cmap"]
    mid, lo, hi = (np.array(cm(t)) for t in (0.5, 0.0, 1.0))
    ctx.check(bool(np.abs(mid - lo).max() > 0.2 and np.abs(mid - hi).max() > 0.2 and np.abs(lo - hi).max() > 0.2), "low, ordinary and high residuals have different colours")
    inner = [np.abs(np.array(cm(0.5 + s * 0.45 * min(1.0, 2.5 / top))) - mid).max() for s in (-1, 1)]
    ctx.check(max(inner) < 1e-9, "residuals within 2.5 have the neutral colour")


def unfitted(ctx):
    """plots of models that are not fitted are refused"""
    import pandas as pd
    from sklearn.exceptions import NotFittedError
    from robpy.covariance import CellMCD, FastMCD
    from robpy.outliers.ddc import DDC

    made = recorder(ctx)
    for f, E in ((lambda: CellMCD().cell_MCD_plot(0), NotFittedError), (lambda: FastMCD().distance_distance_plot(), NotFittedError),
                 (lambda: DDC().cellmap(pd.DataFrame(np.zeros((3, 2)))), ValueError)):
        try:
            f()
            ctx.check(False, "a plot of an unfitted model is refused")
        except E:
            ctx.check(True, "a plot of an unfitted model is refused")
    ctx.check(not made, "nothing is drawn")
    m, D = model(ctx, (), 5, 2, 0.99)
    try:
        m.cell_MCD_plot(0, plottype="bivariate")
        ctx.check(False, "a bivariate plot needs its second variable")
    except ValueError:
        ctx.check(True, "a bivariate plot needs its second variable")


def scenarios(tier):
    S = Scenario
    big = tier != "quick"
    out = [S("index plot", cellplot, dict(plottype="indexplot", free=[("residuals", 2, 0), ("residuals", 5, 0)])),
           S("index plot, other variable, quantile and names", cellplot, dict(plottype="indexplot", free=[("residuals", 1, 2)], p=3, var=2, quantile=0.95, aq=0.999, holes=((4, 2),))),
           S("index plot without names", cellplot, dict(plottype="indexplot", free=[("residuals", 0, 1)], var=1, named=False)),
           S("residuals against the variable", cellplot, dict(plottype="residuals_vs_variable", free=[("X", 3, 0)])),
           S("residuals against the variable, free residual, missing cells", cellplot, dict(plottype="residuals_vs_variable", free=[("residuals", 3, 1)], n=8, var=1, aq=0.9, holes=((2, 1), (5, 1)))),
           S("residuals against the predictions", cellplot, dict(plottype="residuals_vs_predictions", free=[("predictions", 4, 1)], var=1, aq=0.9)),
           S("residuals against the predictions, free residual", cellplot, dict(plottype="residuals_vs_predictions", free=[("residuals", 1, 0)], quantile=0.9)),
           S("variable against its predictions", cellplot, dict(plottype="variable_vs_predictions", free=[("X", 2, 1)], var=1)),
           S("variable against its predictions, free prediction", cellplot, dict(plottype="variable_vs_predictions", free=[("predictions", 2, 0)], aq=0.9, holes=((1, 0),), n=8)),
           S("two variables", cellplot, dict(plottype="bivariate", free=[("X", 2, 0)], second=1)),
           S("two variables, other pair", cellplot, dict(plottype="bivariate", free=[("X", 4, 0)], p=3, var=2, second=0, aq=0.8, holes=((1, 2), (3, 0)), n=8)),
           S("two variables without names", cellplot, dict(plottype="bivariate", free=[("X", 4, 1)], second=1, named=False)),
           S("ellipse, free variance", ellipse, dict(which="a", quantile=0.99, direct=True)),
           S("ellipse, free covariance", ellipse, dict(which="b", quantile=0.9, direct=True)),
           S("ellipse of a pair of three variables", ellipse, dict(which="b", quantile=0.95, direct=False)),
           S("distance plot", ddplot, dict(n=7, p=2, free=(2, 0), pct=0.975, how="array")),
           S("distance plot, one variable", ddplot, dict(n=6, p=1, free=(3, 0), pct=0.9, how="array")),
           S("distance plot, three variables, DataFrame", ddplot, dict(n=8, p=3, free=(1, 1), pct=0.99, how="frame")),
           S("regression map", regmap, dict(n=7, p=2, vt=2.5, pct=0.975, rs=True)),
           S("regression map, other thresholds", regmap, dict(n=6, p=1, vt=1.5, pct=0.9, rs=False)),
           S("PCA map", pcamap, dict(p=2, n=7)),
           S("PCA map, three variables", pcamap, dict(p=3, n=8)),
           S("boxplot", bxp, dict(n=9, cols=1, i=3, frame=False, own_ax=False)),
           S("boxplot of two columns on given axes", bxp, dict(n=9, cols=2, i=8, frame=True, own_ax=True)),
           S("boxplot of two columns", bxp, dict(n=8, cols=2, i=0, frame=False, own_ax=False)),
           S("cell map", cellmap, dict(n=4, p=3, given=False)),
           S("cell map of given residuals, slices, annotated", cellmap, dict(n=5, p=3, rows=(1, 4), cols=(1, 3), annotate=True, vmax=4.0)),
           S("cell map, selections", cellmap, dict(n=5, p=3, rows=[3, 2, 0], cols=[2, 1], annotate=True)),
           S("cell map, row selection and column slice", cellmap, dict(n=5, p=3, rows=[2, 1], cols=(0, 2), annotate=True, given=False)),
           S("cell map, narrow colour range", cellmap, dict(n=4, p=2, vmax=2.0)),
           S("unfitted models", unfitted, {})]
    if big:
        for v in (0, 1, 2):
            for t in ("indexplot", "residuals_vs_variable", "residuals_vs_predictions", "variable_vs_predictions", "bivariate"):
                for k, nm in enumerate(("X", "residuals", "predictions")):
                    out.append(S(f"{t}, variable {v}, free {nm}", cellplot, dict(plottype=t, free=[(nm, (3 * v + k) % 8, v)], n=8, p=3, var=v, second=(v + 1) % 3 if t == "bivariate" else None,
                                                                               quantile=(0.99, 0.95, 0.9)[k], aq=(None, 0.8, 0.999)[v])))
    return out
