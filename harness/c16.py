"""Wrapping transformation and the covariance built on it."""
import numpy as np

from symrob.runner import Scenario
from harness.common import cov_, mad_, mean_, median_, sum_
from harness.c13 import data
from harness.c14 import sample

FUNCTIONS = ["preprocessing.utils.wrapping_transformation", "covariance.wrapping.WrappingCovariance.calculate_covariance"]
BOUNDS = ("n=5..7 observations, one or two columns, one free value in [-1000, 1000] (all branches of the psi function, zero MAD), default and "
          "other constants, with and without rescaling; covariance: the same and every shift and scale of concrete samples with n=20..30, p=3")
STUBS = ["tanh: uninterpreted odd monotone function with its bounds; equal arguments give equal values"]
BUDGET = 60
DEF = dict(b=1.5, c=4.0, q1=1.540793, q2=0.8622731)


def psi(ctx, z, b, c, q1, q2):
    s = 1
    if ctx.if_(z, "<", 0):
        z, s = -z, -1
    if ctx.if_(z, "<", b):
        return z * s
    if ctx.if_(z, "<=", c):
        return s * q1 * ctx.tanh(q2 * (c - z))
    return ctx.const(0)


def wrap1(ctx, xs, rescale, k, loc=None, scale=None):
    m = median_(ctx, xs) if loc is None else loc
    s = mad_(ctx, xs) if scale is None else scale
    zero = ctx.if_(s, "==", 0)
    z = [psi(ctx, (x - m) if zero else (x - m) / s, **k) for x in xs]
    if not rescale:
        return [v * s + m for v in z]
    mu = mean_(z)
    v = mean_([(t - mu) * (t - mu) for t in z])
    if ctx.if_(v, "==", 0):
        return [(t - mu) * s + m for t in z]
    sd = ctx.sqrt(v)
    return [(t - mu) / sd * s + m for t in z]


def trans(ctx, n, col, i, rescale, k={}, base=None):
    from robpy.preprocessing.utils import wrapping_transformation

    X = data(ctx, n, 2, [(i, col)])
    if base:
        X = ctx.array([[ctx.const(float(base[r])), X[r][1]] if r != i else [X[r][0], X[r][1]] for r in range(n)])
    rows = [list(r) for r in X]
    out = wrapping_transformation(X, rescale=rescale, **k)
    kk = dict(DEF, **k)
    for j in range(2):
        w = wrap1(ctx, [r[j] for r in rows], rescale, kk)
        ctx.check(ctx.all([ctx.eq(out[a, j], w[a]) for a in range(n)]), f"column {j} is the wrapped column")
        if not rescale and kk is DEF:
            ctx.check(ctx.all([ctx.le(abs(out[a, j] - out[b, j]), 1e9) for a in range(2) for b in range(2)]), "finite")
    ctx.check(ctx.all([ctx.eq(X[a, j], rows[a][j], 0) for a in range(n) for j in range(2)]), "input unchanged")


def estimators(ctx, n, i):
    """user supplied location and scale"""
    from robpy.preprocessing.utils import wrapping_transformation

    X = data(ctx, n, 2, [(i, 0)])
    loc, sc = [0.5, -0.25], [1.5, 2.0]
    out = wrapping_transformation(X, rescale=False, location_estimator=lambda *a, **k: ctx.array([ctx.const(v) for v in loc]),
                                  scale_estimator=lambda *a, **k: ctx.array([ctx.const(v) for v in sc]))
    for j in range(2):
        w = wrap1(ctx, [r[j] for r in X], False, DEF, ctx.const(loc[j]), ctx.const(sc[j]))
        ctx.check(ctx.all([ctx.eq(out[a, j], w[a]) for a in range(n)]), "transformation with the supplied location and scale")


def covariance(ctx, n, col, i, k={}):
    from robpy.covariance import WrappingCovariance
    from robpy.preprocessing.utils import wrapping_transformation

    X = data(ctx, n, 2, [(i, col)])
    W = wrapping_transformation(X, rescale=True, **k)  # its contract is checked by the transformation scenarios
    _, C = cov_([list(r) for r in W])
    if ctx.if_(C[0][0], "==", 0) or ctx.if_(C[1][1], "==", 0) or ctx.if_(C[0][0] * C[1][1] - C[0][1] * C[0][1], "==", 0):
        ctx.stop()
    e = WrappingCovariance(**k)
    cov = e.calculate_covariance(X)
    ctx.check(ctx.all([ctx.eq(cov[a, b], C[a][b], 1e-5) for a in range(2) for b in range(2)]), "classical covariance of the wrapped data")
    r = C[0][1] / ctx.sqrt(C[0][0]) / ctx.sqrt(C[1][1])
    ctx.check(ctx.eq(e.correlation_[0, 1], r, 1e-5) & ctx.eq(e.correlation_[0, 0], 1), "correlation of the wrapped data")


def moved(ctx, n, p, seed, kind):
    """every shift / every scale of a concrete sample"""
    from robpy.covariance import WrappingCovariance

    B = sample(n, p, seed)
    E = WrappingCovariance().fit(ctx.array([[ctx.const(float(v)) for v in r] for r in B]))
    k = ctx.real("k", lo=1e-6, hi=1e6) if kind == "scale" else ctx.const(1)
    b = ctx.real("b", lo=-1000, hi=1000) if kind == "shift" else ctx.const(0)
    s = [k if j == 0 else ctx.const(1) for j in range(p)]
    e = WrappingCovariance().fit(ctx.array([[ctx.const(float(v)) * s[j] + b * (j + 1) for j, v in enumerate(r)] for r in B]))
    ctx.check(ctx.all([ctx.eq(e.covariance_[i, j] / s[i] / s[j], E.covariance_[i, j], 1e-5) for i in range(p) for j in range(p)]),
              f"scatter follows the {kind}")
    ctx.check(ctx.all([ctx.eq(e.correlation_[i, j], E.correlation_[i, j], 1e-5) for i in range(p) for j in range(p)]),
              f"correlation unaffected by the {kind}")


def scenarios(tier):
    S = Scenario
    out = [S("transformation n=6 rescaled", trans, dict(n=6, col=0, i=2, rescale=True)),
           S("transformation n=5 rescaled", trans, dict(n=5, col=1, i=3, rescale=True)),
           S("transformation n=7", trans, dict(n=7, col=1, i=0, rescale=False)),
           S("transformation n=6 other constants", trans, dict(n=6, col=0, i=4, rescale=False, k=dict(b=1.0, c=2.0, q1=1.2, q2=1.1))),
           S("transformation zero MAD", trans, dict(n=5, col=0, i=2, rescale=True, base=[1, 1, 0, 1, 2.5])),
           S("transformation zero MAD not rescaled", trans, dict(n=5, col=0, i=2, rescale=False, base=[1, 1, 0, 1, 2.5])),
           S("transformation supplied location and scale", estimators, dict(n=5, i=1)),
           S("covariance n=6", covariance, dict(n=6, col=0, i=1), check_ms=1500),
           S("covariance n=5 other constants", covariance, dict(n=5, col=1, i=4, k=dict(b=1.0, c=2.0, q1=1.2, q2=1.1)), check_ms=1500),
           S("covariance n=20 shift", moved, dict(n=20, p=3, seed=1, kind="shift")),
           S("covariance n=24 shift", moved, dict(n=24, p=3, seed=2, kind="shift")),
           S("covariance n=20 scale", moved, dict(n=20, p=3, seed=3, kind="scale")),
           S("covariance n=30 scale", moved, dict(n=30, p=3, seed=4, kind="scale"))]
    return out
