"""KendallTau covariance: pairwise Kendall tau-b times the Qn scales."""
import math

import numpy as np

from symrob.runner import Scenario
from harness.c13 import data
from harness.c14 import sample
from harness.common import sort_

FUNCTIONS = ["covariance.kendall.KendallTau.calculate_covariance", "univariate.qn.Qn._calculate"]
BOUNDS = ("n=5..8, p=2, 3: one coordinate free in [-1000, 1000] (all orderings and ties); every shift of one and scale of another column of "
          "concrete samples with n=15..25, p=3")
STUBS = ["scipy kendalltau: exact tau-b with forking comparisons (ties by exact equality)"]
BUDGET = 60
DN = {5: 0.844, 6: 0.611, 7: 0.857, 8: 0.669}


def qn_(ctx, xs):
    n = len(xs)
    h = n // 2 + 1
    d = []
    for i in range(n):
        for j in range(i):
            v = xs[i] - xs[j]
            d.append(-v if ctx.if_(v, "<", 0) else v)
    return sort_(ctx, d)[h * (h - 1) // 2 - 1] * DN[n] * 2.219144


def tau_(ctx, a, b):
    """tau-b"""
    s = ta = tb = 0
    n = len(a)
    for i in range(n):
        for j in range(i):
            u = 0 if ctx.if_(a[i], "==", a[j]) else 1 if ctx.if_(a[i], ">", a[j]) else -1
            v = 0 if ctx.if_(b[i], "==", b[j]) else 1 if ctx.if_(b[i], ">", b[j]) else -1
            s += u * v
            ta += u != 0
            tb += v != 0
    return s / math.sqrt(ta * tb)


def definition(ctx, n, p, free):
    from robpy.covariance import KendallTau

    X = data(ctx, n, p, free)
    cols = [[r[j] for r in X] for j in range(p)]
    q = [qn_(ctx, c) for c in cols]
    e = KendallTau()
    cov = e.calculate_covariance(X)
    for i in range(p):
        ctx.check(ctx.eq(cov[i, i], q[i] * q[i], 1e-5), "variances are the squared Qn scales")
        ctx.check(ctx.eq(e.correlation_[i, i], 1), "unit diagonal of the correlation")
        for j in range(i):
            t = tau_(ctx, cols[i], cols[j])
            ctx.check(ctx.eq(e.correlation_[i, j], t) & ctx.eq(e.correlation_[j, i], t), "correlations are Kendall's tau")
            ctx.check(ctx.eq(cov[i, j], t * q[i] * q[j], 1e-5) & ctx.eq(cov[j, i], t * q[i] * q[j], 1e-5),
                      "covariances are tau times the two scales")


def moved(ctx, n, p, seed):
    from robpy.covariance import KendallTau

    Z = sample(n, p, seed)
    k, b = ctx.real("k", lo=1e-6, hi=1e6), ctx.real("b", lo=-1000, hi=1000)
    E = KendallTau().fit(ctx.array([[ctx.const(float(v)) for v in r] for r in Z]))
    for kk, bb, t in ((k, 0, "scale"), (1, b, "shift")):
        X = ctx.array([[ctx.const(float(r[0])) * kk, ctx.const(float(r[1])) + bb] + [ctx.const(float(v)) for v in r[2:]] for r in Z])
        e = KendallTau().fit(X)
        s = [kk] + [1] * (p - 1)
        ctx.check(ctx.all([ctx.eq(e.covariance_[i, j] / s[i] / s[j], E.covariance_[i, j], 1e-5) for i in range(p) for j in range(p)]),
                  f"scatter follows the {t} of a column")


def scenarios(tier):
    S = Scenario
    out = [S("n=6 p=2", definition, dict(n=6, p=2, free=[(2, 0)])), S("n=5 p=2", definition, dict(n=5, p=2, free=[(4, 1)])),
           S("n=7 p=2", definition, dict(n=7, p=2, free=[(1, 1)])), S("n=6 p=3", definition, dict(n=6, p=3, free=[(3, 2)])),
           S("n=8 p=2", definition, dict(n=8, p=2, free=[(0, 0)])),
           S("n=15 p=3 moved", moved, dict(n=15, p=3, seed=1)), S("n=24 p=3 moved", moved, dict(n=24, p=3, seed=2))]
    return out
