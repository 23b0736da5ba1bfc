"""MM-regression: high-efficiency M-step at the fixed initial scale."""
import logging

import numpy as np

from symrob.runner import Scenario
from harness.c22 import X1, X2, Y, fitted, ls, xy
from harness.c25 import coefs, equations, w_

FUNCTIONS = ["regression.mm.MMRegression.fit", "regression.mm.MMRegression.predict", "utils.rho.TukeyBisquare.psi", "utils.rho.Huber.psi"]
STUBS = ["sklearn LinearRegression: exact weighted least squares", "initial estimator: S or LTS as in C22, C25, or a stand-in with given coefficients "
         "and scale", "constants of the iterations kept with 128 significant bits"]
BOUNDS = ("n=6..8, p=1, 2: one response or feature value free in [-1000, 1000] for one reweighting step; n=12..20, p=1..3: every shift "
          "and every positive rescaling of the responses of concrete samples iterated to convergence; Tukey and Huber losses")
BUDGET = 60


def stand_in(beta, scale):
    """a fitted regression with given coefficients"""
    from robpy.regression.base import RobustRegression

    class Fixed(RobustRegression):
        def fit(self, X, y):
            self._scale = scale
            return self

        def predict(self, X):
            return X @ np.array(beta[1:], dtype=float if all(isinstance(v, float) for v in beta) else object) + beta[0]

    return Fixed()


def mm_kw(kind, c):
    from robpy.utils.rho import Huber, TukeyBisquare

    if kind == "huber":
        return dict(rho=Huber(b=c))
    return {} if c == 3.44 else dict(rho=TukeyBisquare(c=c))


def steps(ctx, n, p, k, y_free=None, x_free=None, kind="tukey", c=3.44, s=0.5, lim=1000, beta0=None):
    """k reweighting steps from given coefficients and scale"""
    from robpy.regression import MMRegression

    rows = [[ctx.const(v) for v in ((X1[i],) if p == 1 else (X1[i], X2[i]))] for i in range(n)]
    y = [ctx.const(v) for v in Y[:n]]
    z = ctx.real("z", lo=-lim, hi=lim)
    if y_free is not None:
        y[y_free] = z
    else:
        rows[x_free[0]][x_free[1]] = z
    beta0 = [ctx.const(v) for v in (beta0 or [0.25, 1.0, 0.125][:p + 1])]
    if not ctx.symbolic:
        beta0 = [float(v) for v in beta0]
    e = MMRegression(initial_estimator=stand_in(beta0, s), max_iterations=k, **mm_kw(kind, c))
    X = ctx.array(rows)
    b = beta0
    for it in range(k):
        r = [y[i] - fitted(b, rows[i]) for i in range(n)]
        w = {i: w_(ctx, r[i] * r[i] / (s * s), c, kind) for i in range(n)}
        d, f = ls(rows, y, list(range(n)), w)
        if ctx.if_(d, "==", 0):
            ctx.stop()
        new = f()
        done = True
        for i in range(n):
            t = fitted(new, rows[i]) - fitted(b, rows[i])
            if not (ctx.if_(t, "<", 1e-7) and ctx.if_(t, ">", -1e-7)):
                done = False
                break
        b = new
        if done:
            break
    e.fit(X, ctx.array(y))
    ctx.check(ctx.all([ctx.eq(u, v, 1e-5) for u, v in zip(coefs(ctx, e, p), b)]), f"{k} reweighting step(s) from the initial estimate")
    ctx.check(ctx.eq(e.scale, s, 1e-9), "the scale is that of the initial estimate")


def zero(ctx, n, p, i):
    """an observation fitted exactly by the initial estimate has full weight"""
    from robpy.regression import MMRegression

    beta0 = [0.25, 1.0]
    rows = [[ctx.const(X1[a])] for a in range(n)]
    z = ctx.real("z", lo=-50, hi=50)
    y = [ctx.const(v) for v in Y[:n]]
    y[i] = ctx.const(0.25 + X1[i])
    y[(i + 2) % n] = z
    b = [ctx.const(v) for v in beta0]
    e = MMRegression(initial_estimator=stand_in(b if ctx.symbolic else beta0, 0.5), max_iterations=1).fit(ctx.array(rows), ctx.array(y))
    w = {a: w_(ctx, (y[a] - fitted(b, rows[a])) * (y[a] - fitted(b, rows[a])) * 4, 3.44, "tukey") for a in range(n)}
    d, f = ls(rows, y, list(range(n)), w)
    if ctx.if_(d, "==", 0):
        ctx.stop()
    ctx.check(ctx.all([ctx.eq(u, v, 1e-5) for u, v in zip(coefs(ctx, e, p), f())]), "a zero residual has weight one")


def converged(ctx, n, p, seed, how, initial, kind="tukey", c=3.44, kw={}):
    from robpy.regression import FastLTSRegression, MMRegression, SRegression

    X, y = xy(n, p, seed)
    k = ctx.real("k", lo=1e-2, hi=1000) if how == "scale" else ctx.const(1)
    b = ctx.real("b", lo=-1000, hi=1000) if how == "shift" else ctx.const(0)
    rows = [[ctx.const(float(v)) for v in r] for r in X]
    y = [ctx.const(float(v)) * k + b for v in y]
    XX, yy = ctx.array(rows), ctx.array(y)

    def first():
        if initial == "S":
            return SRegression(n_initial_subsets=2, n_best_subsets=1, random_state=seed, relative_tolerance=1e-3)
        return FastLTSRegression(n_initial_subsets=6, n_best_models=2, random_state=seed)

    if initial == "LTS":
        logging.getLogger("FastLTS").disabled = True
    e = MMRegression(initial_estimator=first(), epsilon=1e-3 if kind == "huber" else 1e-9 if how == "shift" else 1e-7, **mm_kw(kind, c)).fit(XX, yy)
    e0 = first().fit(XX, yy)
    ctx.check(ctx.eq(e.scale, e0.scale, 1e-6), "the scale is that of the initial estimate")
    beta = coefs(ctx, e, p)
    if e.n_iter < 500:
        equations(ctx, beta, e.scale, rows, y, c, kind, k, tol=0.02 if kind == "huber" else 1e-4)
    else:
        ctx.check(False, "the iteration converges")


def stops(ctx, n, p, seed, eps, far):
    """the iteration stops only when a further reweighting step would change no scaled residual by more than epsilon"""
    from robpy.regression import MMRegression

    X, y = xy(n, p, seed)
    b = ctx.real("b", lo=-1000, hi=1000)
    rows = [[ctx.const(float(v)) for v in r] for r in X]
    beta0 = [0.5] + [j + 1 + far * (-1) ** j for j in range(p)]
    y = [ctx.const(float(v)) + b for v in y]
    beta0 = [ctx.const(beta0[0]) + b] + [ctx.const(v) for v in beta0[1:]]
    s = 1.5
    e = MMRegression(initial_estimator=stand_in(beta0, s), epsilon=eps).fit(ctx.array(rows), ctx.array(y))
    beta = coefs(ctx, e, p)
    w = {i: w_(ctx, (y[i] - fitted(beta, rows[i])) * (y[i] - fitted(beta, rows[i])) / (s * s), 3.44, "tukey") for i in range(n)}
    d, f = ls(rows, y, list(range(n)), w)
    if ctx.if_(d, "==", 0):
        ctx.stop()
    new = f()
    for i in range(n):
        t = fitted(new, rows[i]) - fitted(beta, rows[i])
        ctx.check(ctx.le(t, eps * s, 1e-9) & ctx.ge(t, -eps * s, 1e-9), "one more reweighting step changes no scaled residual by more than epsilon")


def exact(ctx, n, initial):
    """exact fit of a majority: the initial (exact) fit is kept"""
    from robpy.regression import FastLTSRegression, MMRegression

    z = ctx.real("z", lo=-1e6, hi=1e6)
    rows = [[ctx.const(v)] for v in X1[:n]]
    y = [ctx.const(0.0)] * (n - 1) + [z]
    logging.getLogger("FastLTS").disabled = True
    e = MMRegression(initial_estimator=FastLTSRegression(n_initial_subsets=3, n_best_models=1, random_state=0)).fit(ctx.array(rows), ctx.array(y))
    v = np.asarray(e.predict(ctx.array(rows))).reshape(-1)
    ctx.check(ctx.all([ctx.eq(v[i], 0) for i in range(n - 1)]), "a line through most observations is returned")
    ctx.check(ctx.eq(e.scale, 0), "zero scale for an exact fit")


def scenarios(tier):
    S = Scenario
    K = dict(prec=128, path_timeout=60)
    out = [S("one step, free response", steps, dict(n=7, p=1, k=1, y_free=3)),
           S("one step, free feature", steps, dict(n=6, p=1, k=1, x_free=(2, 0))),
           S("one step, free response p=2", steps, dict(n=7, p=2, k=1, y_free=1)),
           S("one step, Huber", steps, dict(n=6, p=1, k=1, y_free=4, kind="huber", c=1.5, lim=50)),
           S("one step, other tuning", steps, dict(n=6, p=1, k=1, y_free=0, c=4.685, s=1.25)),
           S("zero residual", zero, dict(n=6, p=1, i=1)), S("zero residual n=7", zero, dict(n=7, p=1, i=3)),
           S("exact fit", exact, dict(n=8, initial="LTS"))]
    for j in range(12 if tier == "quick" else 40):
        out.append(S(f"stops, sample {j}", stops, dict(n=10 + j % 5, p=1 + j % 2, seed=80 + j, eps=(0.1, 0.02, 1e-3)[j % 3], far=(0.5, 0.25)[j // 3 % 2]), **K))
    for j in range(3 if tier == "quick" else 10):
        out.append(S(f"converged, S start, scale, sample {j}", converged, dict(n=13 + j, p=1 + j % 3, seed=40 + j, how="scale", initial="S"), **K))
        out.append(S(f"converged, LTS start, scale, sample {j}", converged, dict(n=14 + 2 * j, p=1 + j % 3, seed=50 + j, how="scale", initial="LTS"), **K))
        out.append(S(f"converged, LTS start, shift, sample {j}", converged, dict(n=14 + 2 * j, p=1 + j % 3, seed=60 + j, how="shift", initial="LTS"), **K))
    return out
