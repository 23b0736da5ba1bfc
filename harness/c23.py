"""Small-sample correction factors of the LTS scale."""
import math

from symrob.runner import Scenario

FUNCTIONS = ["regression.lts.get_correction_factor", "regression.lts.get_correction_factor_reweighting", "regression.lts.get_consistency_factor"]
BOUNDS = "alpha symbolic over the reals in [-1, 3]; p = 0..6, 10, 15; n from 2p+2 to 1000 (9 values per p); consistency: n = 4..40, every h"
STUBS = []
BUDGET = 40
RAW = dict(p0=((0.262024211897096, 0.604756680630497), (-0.351584646688712, 1.01646567502486)),
           p1=((0.630869217886906, 0.650789250442946), (0.565065391014791, 1.03044199012509)),
           q875=((-0.458580153984614, 1.12236071104403, 3), (-0.267178168108996, 1.1022478781154, 5)),
           q500=((-0.746945886714663, 0.56264937192689, 3), (-0.535478048924724, 0.543323462033445, 5)))
REW = dict(p0=((1.11098143415027, 1.5182890270453), (-0.66046776772861, 0.88939595831888)),
           p1=((1.58609654199605, 1.46340162526468), (0.391653958727332, 1.03167487483316)),
           q875=((-0.474174840843602, 1.39681715704956, 3), (-0.276640353112907, 1.42543242287677, 5)),
           q500=((-0.773365715932083, 2.02013996406346, 3), (-0.337571678986723, 2.02037467454833, 5)))


def ends(T, n, p):
    """reciprocal factors at alpha = 0.5 and 0.875"""
    if p < 2:
        return [1 - math.exp(a) / n ** b for a, b in T[f"p{p}"]]
    out = []
    for key in ("q500", "q875"):
        (a1, b1, k1), (a2, b2, k2) = T[key]
        y1, y2 = math.log(-a1 / p ** b1), math.log(-a2 / p ** b2)
        x1, x2 = math.log(k1 * p * p), math.log(k2 * p * p)
        slope = (y1 - y2) / (x2 - x1)
        out.append(1 - math.exp(y1 + slope * x1) / n ** slope)
    return out


def factor(ctx, which, p, n):
    from robpy.regression import lts

    f = lts.get_correction_factor if which == "raw" else lts.get_correction_factor_reweighting
    a = ctx.real("alpha", lo=-1, hi=3)
    inside = ctx.if_(a, ">=", 0.5) and ctx.if_(a, "<=", 1)
    try:
        v = f(p=p, n=n, alpha=a)
    except ValueError:
        ctx.check(not inside, "every alpha in [0.5, 1] is accepted")
        return
    ctx.check(inside, "alpha outside [0.5, 1] is rejected with ValueError")
    lo, hi = ends(RAW if which == "raw" else REW, n, p)
    if ctx.if_(a, "<=", 0.875):
        w = (a - 0.5) * ((hi - lo) / 0.375) + lo
    else:
        w = (a - 0.875) * ((1 - hi) / 0.125) + hi
    if ctx.if_(w, "<=", 1e-6):
        ctx.stop()
    # the factor is the reciprocal of the interpolated value (of its root without predictors)
    ctx.check(ctx.eq(v * v * w if p == 0 else v * w, 1, 1e-6), "the factor is the reciprocal of the published interpolation")
    ctx.check(ctx.gt(v, 0), "the factor is positive")
    ctx.observe("factor", [v])


def ordering(ctx, which, p, n):
    """the correction decreases with alpha and vanishes at alpha = 1"""
    from robpy.regression import lts

    f = lts.get_correction_factor if which == "raw" else lts.get_correction_factor_reweighting
    lo, hi = ends(RAW if which == "raw" else REW, n, p)
    a, b = ctx.real("a", lo=0.5, hi=1), ctx.real("b", lo=0.5, hi=1)
    ctx.assume(a, "<=", b)
    if 0 < lo <= hi <= 1:
        ctx.check(ctx.ge(f(p=p, n=n, alpha=a), f(p=p, n=n, alpha=b)), "a larger subset needs a smaller correction")
    ctx.check(ctx.eq(f(p=p, n=n, alpha=1.0), 1), "no correction for the complete sample")


def consistency(ctx, n):
    """the mean square of the h smallest of n normal quantiles is made consistent; continuous in the end point"""
    from robpy.regression import lts
    from scipy import stats

    f = getattr(lts, "get_consistency_factor", None)
    if f is None:
        ctx.stop()
    h = n // 2 + ctx.choose(n - n // 2 + 1)
    q = float(stats.norm.ppf((h + n) / (2 * n)))
    v = float(f(n=n, h=h))
    want = 1.0 if h == n else (h / n / float(stats.chi2.cdf(q * q, 3))) ** 0.5
    ctx.check(abs(v - want) <= 1e-6, "consistency at normal errors")


def scenarios(tier):
    S = Scenario
    out = []
    ps = (0, 1, 2, 3, 5, 10) if tier == "quick" else (0, 1, 2, 3, 4, 5, 6, 8, 10, 15, 20)
    for w in ("raw", "reweighted"):
        for p in ps:
            ns = sorted({max(3, 2 * p + 2), 2 * p + 5, 4 * p + 7, 10 * p + 20, 100 * (p + 1), 1000})
            for n in ns:
                out.append(S(f"{w} p={p} n={n}", factor, dict(which=w, p=p, n=n)))
            out.append(S(f"{w} p={p} n={ns[3]} ordering", ordering, dict(which=w, p=p, n=ns[3])))
    for n in (10, 25):
        out.append(S(f"consistency n={n}", consistency, dict(n=n)))
    return out
