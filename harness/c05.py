"""Tau, one-step M and wrapping one-step estimators equal their defining formulas."""
import math

from scipy.stats import norm

from symrob.runner import Scenario
from harness.common import abs_, mad_, mean_, median_, sum_

FUNCTIONS = ["univariate.tau.Tau._calculate", "univariate.tau.Tau._weight_function", "univariate.tau.Tau._rho_function",
             "univariate.onestep_m.OneStepM._calculate", "univariate.onestep_m.OneStepWrapping._calculate",
             "univariate.onestep_m.OneStepWrapping._tanh_weights", "utils.rho.Huber.psi", "utils.rho.TukeyBisquare.psi"]
BOUNDS = "n=3 with median 0 and free extremes, n=5..8 with one or two free values; degenerate (zero MAD) samples included"
BUDGET = 40
BASE = [0.3, 2.25, -1.2, 2.2, 0.9, -0.4, 1.4, 7.5, 3.1, -2.6]


def data(ctx, n, free):
    if free == "m":
        return ctx.array([ctx.real("x2", lo=0.001, hi=1000), ctx.real("x0", lo=-1000, hi=-0.001), 0.0])
    if free == "m1":
        return ctx.array([1.25, ctx.real("x0", lo=-1000, hi=-0.001), 0.0])
    return ctx.array([ctx.real(f"x{i}") if i in free else ctx.const(BASE[i]) for i in range(n)])


def tau(ctx, n, free, c1=4.5, c2=3.0, cc=True):
    from robpy.univariate.tau import Tau

    x = data(ctx, n, free)
    e = Tau(c1=c1, c2=c2, consistency_correction=cc).fit(x)
    ctx.observe("loc", e.location)
    ctx.observe("scale", e.scale)
    xs = list(x)
    m, s = median_(ctx, xs), mad_(ctx, xs)
    ctx.assume(s, ">", 0)
    w = []
    for v in xs:
        u = (v - m) / s
        w.append((1 - (u / c1) * (u / c1)) * (1 - (u / c1) * (u / c1)) if ctx.if_(abs_(ctx, u), "<=", c1) else ctx.const(0))
    mu = sum_([a * b for a, b in zip(w, xs)]) / sum_(w)
    ctx.check(ctx.eq(e.location, mu), "tau location is the weighted mean of its definition")
    r = []
    for v in xs:
        u = (v - e.location) / s
        r.append(u * u if ctx.if_(abs_(ctx, u), "<=", c2) else ctx.const(c2 * c2))
    v2 = s * s * mean_(r)
    if cc:
        b = c2 * norm.ppf(0.75)
        v2 = v2 / float(2 * ((1 - b * b) * norm.cdf(b) - b * norm.pdf(b) + b * b) - 1)
    ctx.check(ctx.eq(e.scale * e.scale, v2) & ctx.ge(e.scale, 0), "tau scale squared is the truncated second moment")


def onestep(ctx, n, free, kind):
    from robpy.univariate.onestep_m import CellwiseOneStepM, HuberOneStepM

    x = data(ctx, n, free)
    e = (HuberOneStepM() if kind == "huber" else CellwiseOneStepM()).fit(x)
    ctx.observe("loc", e.location)
    ctx.observe("scale", e.scale)
    xs = list(x)
    m = median_(ctx, xs)
    s = mad_(ctx, xs) * 1.4826022185056018
    ctx.assume(s, ">=", 1e-3)
    num, den, q = [], [], []
    b, delta = (1.5, 0.7784655) if kind == "huber" else (2.5, 0.845)
    for v in xs:
        u = (v - m) / s
        a = abs_(ctx, u)
        if kind == "huber":
            w = ctx.const(1) if ctx.if_(a, "<=", 1.5) else 1.5 / a
        else:
            w = (1 - u * u / 9) * (1 - u * u / 9) if ctx.if_(a, "<=", 3) else ctx.const(0)
        num.append(w * v)
        den.append(w)
        q.append(u * u if ctx.if_(a, "<=", b) else ctx.const(b * b))
    ctx.check(ctx.eq(e.location, sum_(num) / sum_(den)), "one-step location is the psi(r)/r weighted mean")
    ctx.check(ctx.eq(e.scale * e.scale, s * s * mean_(q) / delta) & ctx.ge(e.scale, 0),
              "one-step scale squared is the delta-corrected mean of squared psi")


def degenerate(ctx, kind):
    """more than half of the observations coincide: MAD = 0"""
    from robpy.univariate.onestep_m import CellwiseOneStepM, HuberOneStepM

    a, b = ctx.real("a", lo=-1000, hi=1000), ctx.real("b", lo=-1000, hi=1000)
    x = ctx.array([a, b, a, a])
    e = (HuberOneStepM() if kind == "huber" else CellwiseOneStepM()).fit(x)
    ctx.observe("loc", e.location)
    ctx.check(ctx.eq(e.scale, 0), "zero MAD gives zero scale")
    lo, hi = (a, b) if ctx.if_(a, "<=", b) else (b, a)
    ctx.check(ctx.finite(e.location), "zero MAD gives a finite location")
    ctx.check(ctx.ge(e.location, lo) & ctx.le(e.location, hi), "zero MAD location lies within the data")


def wrapping(ctx, n, free):
    from robpy.univariate import UnivariateMCD
    from robpy.univariate.onestep_m import OneStepWrapping

    import numpy as np

    x = data(ctx, n, free)
    e = OneStepWrapping().fit(x)
    i = UnivariateMCD().fit(x)
    ctx.observe("loc", e.location)
    ctx.check(ctx.eq(e.scale, i.scale), "scale is the MCD scale")
    A, B, k, b, c = 0.7532528, 0.8430849, 4.1517212, 1.5, 4.0
    num, den = [], []
    ctx.assume(i.scale, ">", 0)
    for v in x:
        u = (v - i.location) / i.scale
        a = abs_(ctx, u)
        if ctx.if_(a, "<", b):
            w = ctx.const(1)
        elif ctx.if_(a, ">", c):
            w = ctx.const(0)
        else:
            t = ctx.tanh(0.5 * math.sqrt((k - 1) * B * B / A) * (c - a))
            w = math.sqrt(A * (k - 1)) * t / a
        num.append(w * v)
        den.append(w)
    ctx.check(ctx.eq(e.location * sum_(den), sum_(num), 1e-5), "location is the tanh-weighted mean of its definition")


def scenarios(tier):
    S = Scenario
    out = [S("tau n=3", tau, dict(n=3, free="m")), S("tau n=6", tau, dict(n=6, free=(1,))),
           S("tau n=7 raw c1=3 c2=2", tau, dict(n=7, free=(3,), c1=3.0, c2=2.0, cc=False)),
           S("tau n=7 c2=1.5", tau, dict(n=7, free=(4,), c2=1.5)),
           S("tau n=8", tau, dict(n=8, free=(7,)))]
    for k in ("huber", "cellwise"):
        out += [S(f"{k} n=3", onestep, dict(n=3, free="m" if k == "huber" else "m1", kind=k)), S(f"{k} n=6", onestep, dict(n=6, free=(1,), kind=k)),
                S(f"{k} n=7", onestep, dict(n=7, free=(3,), kind=k)),
                S(f"{k} zero MAD", degenerate, dict(kind=k))]
    out += [S("wrapping n=7", wrapping, dict(n=7, free=(2,))), S("wrapping n=8", wrapping, dict(n=8, free=(7,))),
            S("wrapping n=5", wrapping, dict(n=5, free=(0,)))]
    if tier != "quick":
        out += [S("tau n=5 two free", tau, dict(n=5, free=(1, 3))), S("huber n=5 two free", onestep,
                                                                     dict(n=5, free=(1, 3), kind="huber")),
                S("cellwise n=5 two free", onestep, dict(n=5, free=(1, 3), kind="cellwise"))]
    return out
