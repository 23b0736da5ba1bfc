"""Regression outlier map: standardised residuals, distances and thresholds."""
import matplotlib.pyplot as plt
import numpy as np
from scipy import stats

from symrob.runner import Scenario
from harness.c22 import X1, X2, Y, fitted
from harness.common import abs_, adj_, cov_, det_, mad_, median_, quad_, var_

FUNCTIONS = ["regression.base.RobustRegression.outlier_map", "utils.distance.mahalanobis_distance", "covariance.mcd.FastMCD.fit"]
STUBS = ["matplotlib axes: recording stand-in", "the fitted regression: a linear predictor with given coefficients"]
BOUNDS = "n=6..12, p=1, 2: one response or one feature value free in [-1000, 1000], all switches and several thresholds"
BUDGET = 60
BETA = [0.25, 1.0, 0.125]


class Ax:
    def __getattr__(self, k):
        return lambda *a, **kw: self


def no_plot(ctx):
    real = plt.subplots
    plt.subplots = lambda *a, **k: (Ax(), Ax())
    ctx.cleanup.append(lambda: setattr(plt, "subplots", real))


def fixed_rng(ctx):
    """unseeded generators start from the same state, so that two robust fits of the same features agree"""
    real = np.random.default_rng
    if ctx.symbolic:
        from symrob import patch

        class R:
            @staticmethod
            def default_rng(seed=None):
                return real(0 if seed is None else seed)

        patch.RNG = R
        ctx.cleanup.append(lambda: setattr(patch, "RNG", None))
    else:
        np.random.default_rng = lambda seed=None: real(0 if seed is None else seed)
        ctx.cleanup.append(lambda: setattr(np.random, "default_rng", real))
    np.random.seed(0)


def stand_in(ctx, BETA=BETA):
    from robpy.regression.base import RobustRegression

    class Fixed(RobustRegression):
        def predict(self, X):
            return np.array([[fitted(BETA[:1 + X.shape[1]], r)] for r in X], dtype=object if ctx.symbolic else float)

    return Fixed()


def omap(ctx, n, p, y_free=None, x_free=None, rs=True, rd=False, vt=2.5, pct=0.975, twice=False):
    no_plot(ctx)
    rows = [[ctx.const(v) for v in ((X1[i % 9] + i // 9 * 0.75,) if p == 1 else (X1[i % 9] + i // 9 * 0.75, X2[i % 9] - i // 9))] for i in range(n)]
    y = [ctx.const(Y[i % 9] + i // 9 * 0.5) for i in range(n)]
    z = ctx.real("z", lo=-1000, hi=1000)
    if y_free is not None:
        y[y_free] = z
    else:
        rows[x_free[0]][x_free[1]] = z
    X = ctx.array(rows)
    beta = [0.25, 0.0, 0.0] if x_free is not None else BETA
    r = [y[i] - fitted(beta[:p + 1], rows[i]) for i in range(n)]
    if rs:
        s2 = mad_(ctx, r)
        s2 = s2 * s2 * (1 / float(stats.norm.ppf(0.75)) ** 2)
    else:
        s2 = var_(r)
    if ctx.if_(s2, "==", 0):
        ctx.stop()
    if rd:
        from robpy.covariance import FastMCD

        fixed_rng(ctx)
        m = FastMCD().fit(X)
        loc, C = list(m.location_), [list(v) for v in m.covariance_]
    else:
        loc, C = cov_(rows)
    if ctx.if_(det_(C), "==", 0):
        ctx.stop()
    kw = {}
    if (vt, pct) != (2.5, 0.975):
        kw = dict(vertical_outlier_threshold=vt, leverage_threshold_percentile=pct)
    yy = ctx.array(y)
    out = stand_in(ctx, beta).outlier_map(X, yy, robust_scaling=rs, robust_distance=rd, return_data=True, **kw)
    ctx.check(len(out) == 5, "the data of the map are returned")
    res, std, dist, v, lev = out
    res, std, dist = (list(np.asarray(a).reshape(-1)) for a in (res, std, dist))
    ctx.check(len(res) == n and len(std) == n and len(dist) == n, "one entry per observation")
    ctx.check(ctx.all([ctx.eq(res[i], r[i]) for i in range(n)]), "residuals of the responses")
    ctx.check(ctx.all([ctx.eq(std[i] * std[i] * s2, r[i] * r[i], 1e-6) & ctx.ge(std[i] * r[i], 0) for i in range(n)]),
              f"residuals divided by the {'MAD' if rs else 'standard deviation'}")
    d = det_(C)
    A = adj_(C)
    for i in range(n):
        q = quad_([a - b for a, b in zip(rows[i], loc)], A)
        ctx.check(ctx.eq(dist[i] * dist[i] * d, q, 1e-6) & ctx.ge(dist[i], 0), f"{'robust' if rd else 'classical'} distance of the features")
    ctx.check(ctx.eq(v, vt), "residual threshold")
    ctx.check(ctx.eq(lev * lev, float(stats.chi2.ppf(pct, p)), 1e-6) & ctx.ge(lev, 0), "leverage threshold is the chi-square cutoff")
    if not kw and not rd and x_free is None and p == 1:
        ctx.check(stand_in(ctx, beta).outlier_map(X, yy) is None, "nothing is returned by default")
    ctx.check(ctx.all([ctx.eq(X[i, j], rows[i][j]) for i in range(n) for j in range(p)] + [ctx.eq(yy[i], y[i]) for i in range(n)]), "input unchanged")


def scenarios(tier):
    S = Scenario
    big = tier != "quick"
    out = []
    for j, (rs, rd) in enumerate([(True, False), (False, False), (True, True), (False, True)]):
        if not (rs and rd):
            out.append(S(f"free response robust scale={rs} distance={rd}", omap, dict(n=8 if rd else 7, p=2, y_free=1 + j, rs=rs, rd=rd), prec=160 if rd else 0, path_timeout=60))
        out.append(S(f"one feature, free response robust scale={rs} distance={rd}", omap, dict(n=9 if rd else 7, p=1, y_free=6 - j, rs=rs, rd=rd)))
    out.append(S("free feature", omap, dict(n=6, p=2, x_free=(2, 1), rs=True)))
    out.append(S("one feature, free feature", omap, dict(n=5, p=1, x_free=(3, 0), rs=False)))
    out.append(S("other thresholds", omap, dict(n=8, p=2, y_free=5, vt=3.0, pct=0.99)))
    out.append(S("other thresholds, one feature", omap, dict(n=8, p=1, y_free=2, vt=1.75, pct=0.9, rs=False)))
    if big:
        out += [S(f"free feature {i}", omap, dict(n=7 + i % 2, p=2, x_free=(i, i % 2), rs=bool(i % 2))) for i in range(6)]
        out += [S(f"free response n=10, {i}", omap, dict(n=10, p=2, y_free=i)) for i in range(6)]
    return out
