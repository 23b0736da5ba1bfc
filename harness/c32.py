"""DDC: the fitted quantities against an independent implementation of the algorithm."""
import numpy as np
from scipy import stats

from symrob.runner import Scenario

FUNCTIONS = ["outliers.ddc.DDC.fit", "outliers.ddc.DDC.predict", "outliers.ddc.DDC.impute", "univariate.onestep_m.CellwiseOneStepM",
             "utils.distance.mahalanobis_distance"]
STUBS = ["pandas frames of symbolic cells: replace, nunique and isna on such cells; everything else is pandas", "chi-square distribution function: increasing function"]
BOUNDS = ("n=14..18, p=2..4, concrete samples with outlying, missing and infinite cells and outlying rows: every shift in [-1000, 1000] and rescaling in "
          "[10^-3, 10^3] of one column or of all, every minimal correlation in [0, 1] and several quantiles, one outlying cell of any size up to 10^6")
BUDGET = 90
NAN, INF = float("nan"), float("inf")

BASE = [[0.6, 1.1, -0.4, 2.0], [-1.2, -1.6, 1.0, 0.3], [2.1, 2.6, -2.3, -1.1], [-0.4, -0.9, 0.1, 1.7], [1.5, 1.2, -1.1, -0.6], [-2.2, -2.0, 2.4, 0.9],
        [0.1, 0.4, 0.2, -1.4], [-0.9, -0.5, 0.8, 2.6], [1.1, 1.9, -1.4, 0.1], [-1.7, -2.4, 1.3, -2.2], [0.3, -0.3, -0.6, 1.2], [2.7, 2.3, -2.6, -0.2],
        [-0.2, 0.2, 0.5, -1.8], [0.9, 0.6, -0.7, 0.7], [-1.5, -1.1, 1.9, -0.8], [1.8, 1.6, -1.7, 1.4], [0.5, 0.8, -0.1, -0.5], [-0.7, -1.3, 0.4, 0.4]]


def sample(n, p, holes):
    X = [list(r[:p]) for r in BASE[:n]]
    for (i, j), v in holes.items():
        X[i][j] = v
    return X


HOLES = {"clean": {}, "cells": {(3, 0): 9.0, (5, 1): -11.0, (8, 2 - 1): 7.5}, "missing": {(2, 0): NAN, (6, 1): NAN, (9, 0): INF, (0, 1): -INF, (4, 0): -14.0},
         "row": {(7, 0): -8.0, (7, 1): 9.5, (1, 0): 6.0}, "emptyrow": {(4, 0): NAN, (4, 1): NAN, (10, 1): 12.0},
         "hidden": {(2, 0): -2.1, (9, 1): 2.2}}


# own implementation for numbers
def est_(x):
    x = np.asarray(x, float)
    m = np.median(x)
    s = np.median(np.abs(x - m)) / stats.norm.ppf(0.75)
    if s < 1e-12:
        u = x - m
        w = np.where(np.abs(u) <= 3, (1 - (u / 3) ** 2) ** 2, 0.0)
        return np.sum(w * x) / np.sum(w), 0.0
    u = (x - m) / s
    w = np.where(np.abs(u) <= 3, (1 - (u / 3) ** 2) ** 2, 0.0)
    return np.sum(w * x) / np.sum(w), s * np.sqrt(np.mean(np.minimum(np.abs(u), 2.5) ** 2) / 0.845)


def slope_(x, y, cut):
    if np.all(x == 0):
        return 0.0
    b = np.median(y[x != 0] / x[x != 0])
    r = y - b * x
    k = np.abs(r) <= cut * est_(r)[1]
    return np.sum(x[k] * y[k]) / np.sum(x[k] ** 2)


class Ref:
    def __init__(self, X, quantile=0.99, mincor=0.5):
        X = np.array(X, float)
        X[np.isinf(X)] = np.nan
        n, p = X.shape
        self.cut = cut = np.sqrt(stats.chi2.ppf(quantile, 1))
        self.mincor = mincor
        e = [est_(X[~np.isnan(X[:, j]), j]) for j in range(p)]
        self.loc, self.scale = np.array([a for a, _ in e]), np.array([b for _, b in e])
        Z = (X - self.loc) / self.scale
        self.U = U = np.where(np.abs(Z) > cut, np.nan, Z)
        self.corr = np.eye(p)
        self.slopes = np.full((p, p), np.nan)
        self.edge = []
        for i in range(p):
            for j in range(p):
                if i == j:
                    continue
                k = ~np.isnan(U[:, i]) & ~np.isnan(U[:, j])
                x, y = U[k, i], U[k, j]
                a, b = max(i, j), min(i, j)
                r = np.clip((est_(x + y)[1] ** 2 - est_(x - y)[1] ** 2) / 4, -0.99, 0.99)
                d = (x * x + y * y - 2 * r * x * y) / (1 - r * r)
                self.edge += list(np.abs(np.sqrt(d) - cut))
                q = np.sqrt(d) < cut
                self.corr[i, j] = np.corrcoef(x[q], y[q])[0, 1]
                if abs(self.corr[i, j]) >= mincor:
                    self.slopes[i, j] = slope_(x, y, cut)
        self.raw = self.predict_raw(U)
        self.desh = np.array([slope_(self.raw[~np.isnan(Z[:, j]), j], Z[~np.isnan(Z[:, j]), j], cut) for j in range(p)])
        self.pred = self.raw * self.desh
        res = Z - self.pred
        self.rscale = np.array([est_(res[~np.isnan(res[:, j]), j])[1] for j in range(p)])
        self.res = res / self.rscale
        with np.errstate(invalid="ignore"):
            self.cells = np.abs(self.res) > cut
        t = stats.chi2.cdf(self.res ** 2, 1)
        t = np.array([np.mean(r[~np.isnan(r)]) if np.any(~np.isnan(r)) else np.nan for r in t])
        self.t = t
        self.tl, self.ts = est_(t[~np.isnan(t)])
        with np.errstate(invalid="ignore"):
            self.rows = (t - self.tl) / self.ts > cut
        self.Z = Z

    def predict_raw(self, U):
        out = np.zeros(U.shape)
        for a in range(U.shape[0]):
            for i in range(U.shape[1]):
                num = den = 0.0
                for j in range(U.shape[1]):
                    r = abs(self.corr[i, j])
                    if j != i and r >= self.mincor and not np.isnan(U[a, j]):
                        num += r * self.slopes[j, i] * U[a, j]
                        den += r
                out[a, i] = num / den if den else 0.0
        return out


def close(ctx, A, B, tol=1e-6):
    out = []
    for a, b in zip(np.asarray(A).reshape(-1), np.asarray(B, float).reshape(-1)):
        out.append(ctx.is_nan(a) if np.isnan(b) else ctx.eq(a, b, tol))
    if np.size(A) != np.size(B):
        return ctx.any([])
    return ctx.all(out)


def ddc(**k):
    from robpy.outliers import DDC

    return DDC(**k)


def fit(ctx, n, p, holes, how="", quantile=0.99, mincor=0.5, est=None):
    base = sample(n, p, HOLES[holes])
    cols = range(p) if "all" in how else (0,)
    b = [ctx.real(f"b{j}", lo=-1000, hi=1000) if "shift" in how and j in cols else ctx.const(0.25 * j) for j in range(p)]
    k = ctx.real("k", lo=1e-3, hi=1e3) if "scale" in how else ctx.const(1)
    k = [k if j in cols else ctx.const(1 + j) for j in range(p)]
    raw = [[ctx.const(v) * k[j] + b[j] if np.isfinite(v) else v for j, v in enumerate(r)] for r in base]
    X = ctx.frame(raw, [f"v{j}" for j in range(p)], list(range(10, 10 + n)))
    m = ddc(chi2_quantile=quantile, min_correlation=mincor)
    m.fit(X)
    R = Ref(base, quantile, mincor)
    assert min(R.edge) > 1e-7
    loc, sc = m.location_, m.scale_
    ctx.check(ctx.all([ctx.eq((loc[j] - b[j]) / k[j], R.loc[j], 1e-7) & ctx.eq(sc[j] / k[j], R.scale[j], 1e-7) for j in range(p)]),
              "columns standardized by their one-step M-estimates")
    ctx.check(close(ctx, m.robust_correlation_, R.corr), "robust correlations of the cells that are not outlying by themselves")
    ctx.check(close(ctx, m.slopes_, R.slopes), "robust slopes for the pairs of correlated columns only")
    ctx.check(close(ctx, m.raw_predictions_, R.raw) & close(ctx, m.predictions_, R.pred) & close(ctx, m.deshrinkage_, R.desh),
              "predictions: deshrunk weighted means of the slopes times the cells of correlated columns")
    ctx.check(close(ctx, m.standardized_residuals_, R.res), "standardized residuals")
    ctx.check([[bool(v) for v in r] for r in np.asarray(m.cellwise_outliers_)] == R.cells.tolist(), "cells beyond the cutoff are flagged")
    ctx.check([bool(v) for v in np.asarray(m.row_outliers_)] == R.rows.tolist(), "rows beyond the cutoff are flagged")
    P = np.asarray(m.rescaled_predictions_)
    ctx.check(ctx.all([ctx.eq((P[i, j] - b[j]) / k[j], R.pred[i, j] * R.scale[j] + R.loc[j], 1e-6) for i in range(n) for j in range(p)]),
              "predictions in the unit of the data")
    # the same data again
    cells, res = m.predict(X)
    ctx.check([[bool(v) for v in r] for r in np.asarray(cells)] == R.cells.tolist(), "predicting the training data repeats the fit")
    ctx.check(close(ctx, res, R.res), "predicting the training data repeats the fit")
    ctx.check([bool(v) for v in np.asarray(m.predict(X, rowwise=True))] == R.rows.tolist(), "predicting the training data repeats the fit")
    V = np.asarray(X.values)
    ctx.check(ctx.all([ctx.eq(V[i, j], raw[i][j]) for i in range(n) for j in range(p) if np.isfinite(base[i][j])]), "input unchanged")
    ctx.check(all(_same(V[i, j], base[i][j]) for i in range(n) for j in range(p) if not np.isfinite(base[i][j])), "input unchanged")


def _same(v, w):
    v = float(v)
    return v == w or (v != v and w != w)


def correlation(ctx, n, p, holes):
    """every minimal correlation: exactly the columns correlated at least that much are used"""
    base = sample(n, p, HOLES[holes])
    c = ctx.real("c", lo=0, hi=1)
    full = Ref(base, 0.99, 0.0)
    used = [[bool(i != j and ctx.if_(abs(full.corr[i, j]), ">=", c)) for j in range(p)] for i in range(p)]
    for i in range(p):
        for j in range(p):
            if i != j and not ctx.if_(abs(abs(full.corr[i, j]) - c), ">", 1e-9):
                ctx.stop()
    m = ddc(min_correlation=c)
    m.fit(ctx.frame([[ctx.const(v) if np.isfinite(v) else v for v in r] for r in base], list("abcd"[:p])))
    S = np.asarray(m.slopes_)
    ctx.check(ctx.all([(~ctx.is_nan(S[i, j])) if used[i][j] else ctx.is_nan(S[i, j]) for i in range(p) for j in range(p)]),
              "slopes between the columns correlated at least that much")
    Q = np.asarray(m.raw_predictions_)
    for a in range(n):
        for i in range(p):
            num, den = 0.0, 0.0
            for j in range(p):
                if used[i][j] and not np.isnan(full.U[a, j]):
                    num, den = num + abs(full.corr[i, j]) * full.slopes[j, i] * full.U[a, j], den + abs(full.corr[i, j])
            ctx.check(ctx.eq(Q[a, i], num / den if den else 0.0, 1e-6), "predictions use exactly the columns correlated at least that much")


def gross(ctx, n, p, cell, sign, holes="clean"):
    """the size of a gross outlying cell has no influence on anything but its own residual"""
    base = sample(n, p, HOLES[holes])
    base[cell[0]][cell[1]] = sign * 100.0
    R = Ref(base)
    x = ctx.real("x", lo=50, hi=1e6)
    raw = [[ctx.const(v) if np.isfinite(v) else v for v in r] for r in base]
    raw[cell[0]][cell[1]] = x * sign
    m = ddc()
    m.fit(ctx.frame(raw, list("abcd"[:p])))
    ctx.check(close(ctx, m.location_, R.loc) & close(ctx, m.scale_, R.scale) & close(ctx, m.robust_correlation_, R.corr) & close(ctx, m.slopes_, R.slopes)
              & close(ctx, m.deshrinkage_, R.desh) & close(ctx, m.predictions_, R.pred), "the size of an outlying cell has no influence on the fit")
    C = np.asarray(m.cellwise_outliers_)
    ctx.check([[bool(v) for v in r] for r in C] == R.cells.tolist() and bool(C[cell[0], cell[1]]), "the outlying cell is flagged, and the others as before")
    r = np.asarray(m.standardized_residuals_)
    ctx.check(ctx.all([ctx.is_nan(r[i, j]) if np.isnan(R.res[i, j]) else ctx.eq(r[i, j], R.res[i, j], 1e-6) for i in range(n) for j in range(p) if (i, j) != tuple(cell)]),
              "the size of an outlying cell has no influence on the other residuals")


def scenarios(tier):
    S = Scenario
    out = []
    for h in HOLES:
        if h != "emptyrow":
            out.append(S(f"fit p=2 {h}, all", fit, dict(n=14, p=2, holes=h, how="shift scale all")))
        out.append(S(f"fit p=3 {h}", fit, dict(n=16, p=3, holes=h, how="shift scale")))
    out += [
        S("fit p=4", fit, dict(n=18, p=4, holes="cells", how="shift scale")), S("fit p=4 missing", fit, dict(n=18, p=4, holes="missing", how="shift scale all")),
        S("fit quantile 0.9", fit, dict(n=16, p=3, holes="row", how="shift scale", quantile=0.9)),
        S("fit quantile 0.999", fit, dict(n=16, p=3, holes="cells", how="shift scale", quantile=0.999)),
        S("fit all columns", fit, dict(n=16, p=4, holes="cells", how="shift scale", mincor=0.0)),
        S("fit no columns", fit, dict(n=16, p=3, holes="cells", how="shift scale", mincor=0.999)),
        S("minimal correlation", correlation, dict(n=16, p=3, holes="cells")), S("minimal correlation p=4", correlation, dict(n=18, p=4, holes="missing")),
        S("gross cell", gross, dict(n=16, p=3, cell=(4, 0), sign=1)), S("gross cell, second", gross, dict(n=14, p=2, cell=(6, 1), sign=-1, holes="missing")),
        S("gross cell p=4", gross, dict(n=18, p=4, cell=(9, 3), sign=1, holes="cells")),
    ]
    for s in out:
        if "gross" in s.name:
            s.path_timeout = 60
    return out
