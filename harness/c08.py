"""adjusted_boxplot: quartiles by definition, whiskers from the skewness-adjusted fences clipped to the data."""
import numpy as np

from symrob.runner import Scenario
from harness.common import sort_

FUNCTIONS = ["univariate.adjusted_boxplot.adjusted_boxplot"]
BOUNDS = ("n=4..11 observations with one or two free values (every ordering, ties, both skewness signs); 1-D, 2-D "
          "and DataFrame input")
STUBS = ["statsmodels medcouple: exact O(n^2) kernel median with symbolic arguments"]
BUDGET = 40
BASE = [0.3, 2.25, -1.2, 2.2, 0.9, -0.4, 1.4, 7.5, 3.1]


def quantile(xs, q):
    """linear interpolation between order statistics of a sorted list"""
    h = (len(xs) - 1) * q
    i = int(h)
    f = h - i
    return xs[i] if f == 0 else xs[i] * (1 - f) + xs[i + 1] * f


def medcouple_(ctx, s):
    """medcouple of a sorted sample without ties at the median"""
    n = len(s)
    m = s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2
    lo = [(i, v - m) for i, v in enumerate(s) if ctx.if_(v, "<=", m)]
    up = [(i, v - m) for i, v in enumerate(s) if ctx.if_(v, ">=", m)]
    h = []
    k = sum(1 for i, v in lo if ctx.if_(v, "==", 0))
    for a, (i, u) in enumerate(up):
        for b, (j, l) in enumerate(lo):
            if ctx.if_(u, "==", 0) and ctx.if_(l, "==", 0):
                r = a + (b - (len(lo) - k))
                h.append(ctx.const(0 if r == k - 1 else (-1 if r < k - 1 else 1)))
            else:
                h.append((u + l) / (u - l))
    h = sort_(ctx, h)
    n = len(h)
    return h[n // 2] if n % 2 else (h[n // 2 - 1] + h[n // 2]) / 2


def check_box(ctx, b, xs, tag=""):
    s = sort_(ctx, xs)
    n = len(s)
    q1, q2, q3 = quantile(s, 0.25), quantile(s, 0.5), quantile(s, 0.75)
    ctx.check(ctx.eq(b.median, q2), "median of the box")
    ctx.check(ctx.eq(b.q1, q1) & ctx.eq(b.q3, q3), "quartiles of the box")
    ctx.check(ctx.ge(b.lower_whisker, s[0]) & ctx.le(b.upper_whisker, s[-1]), "whiskers stay within the range of the data")
    ctx.check(ctx.le(b.lower_whisker, q1) & ctx.ge(b.upper_whisker, q3), "whiskers do not cut into the box")
    mc = medcouple_(ctx, s)
    if ctx.if_(mc, ">=", 0):
        a1, a3 = -4, 3
    else:
        a1, a3 = -3, 4
    f1 = q1 - 1.5 * ctx.exp(a1 * mc) * (q3 - q1)
    f3 = q3 + 1.5 * ctx.exp(a3 * mc) * (q3 - q1)
    lw = f1 if ctx.if_(f1, ">", s[0]) else s[0]
    uw = f3 if ctx.if_(f3, "<", s[-1]) else s[-1]
    ctx.check(ctx.eq(b.lower_whisker, lw), "lower whisker is the adjusted fence clipped to the data")
    ctx.check(ctx.eq(b.upper_whisker, uw), "upper whisker is the adjusted fence clipped to the data")


def vals(ctx, n, free, scale=1.0):
    return [ctx.real(f"x{i}", lo=-1000, hi=1000) if i in free else ctx.const(scale * BASE[i]) for i in range(n)]


def one(ctx, n, free, scale=1.0, extra=()):
    from robpy.univariate import adjusted_boxplot

    xs = vals(ctx, n, free, scale)
    x = ctx.array(xs)
    r = adjusted_boxplot(x, plot=False)
    ctx.check(len(r) == 1, "one box per variable")
    ctx.observe("w", [r[0].lower_whisker, r[0].upper_whisker])
    check_box(ctx, r[0], xs)
    ctx.check(ctx.all([ctx.eq(a, b, 0) for a, b in zip(x, xs)]), "input unchanged")


def two(ctx, n, free, frame):
    from robpy.univariate import adjusted_boxplot

    a = vals(ctx, n, free)
    b = [ctx.const(-2 * v + 1) for v in BASE[:n]]
    X = ctx.array([[u, v] for u, v in zip(a, b)])
    if frame:
        X = ctx.frame(X, ["u", "v"])
    r = adjusted_boxplot(X, plot=False)
    ctx.check(len(r) == 2, "one box per variable")
    check_box(ctx, r[0], a)
    check_box(ctx, r[1], b)


def mixed(ctx, col, i, frame):
    """columns of opposite skewness with far points on both sides, so that no whisker is clipped"""
    from robpy.univariate import adjusted_boxplot

    A = [-300, 0, 1, 2, 3, 4, 6, 9, 13, 18, 1000]
    C = [[ctx.const(float(v)) for v in A], [ctx.const(-float(v) / 2) for v in A], [ctx.const(3 * float(v) - 1) for v in A]]
    C[col][i] = ctx.real("x", lo=-1000, hi=1000)
    X = ctx.array([list(r) for r in zip(*C)])
    if frame:
        X = ctx.frame(X, ["u", "v", "w"])
    r = adjusted_boxplot(X, plot=False)
    ctx.check(len(r) == 3, "one box per variable")
    for b, xs in zip(r, C):
        check_box(ctx, b, xs)


def scenarios(tier):
    S = Scenario
    out = [S("n=4 one free", one, dict(n=4, free=(1,))), S("n=5 one free", one, dict(n=5, free=(2,))),
           S("n=6 one free", one, dict(n=6, free=(3,))), S("n=7 one free", one, dict(n=7, free=(6,))),
           S("n=5 one free left-skewed", one, dict(n=5, free=(2,), scale=-1.0)),
           S("n=9 one free left-skewed", one, dict(n=9, free=(7,), scale=-1.0)),
           S("three columns of opposite skewness", mixed, dict(col=0, i=4, frame=False)),
           S("three columns of opposite skewness DataFrame", mixed, dict(col=1, i=8, frame=True)),
           S("two columns", two, dict(n=5, free=(2,), frame=False)),
           S("two columns DataFrame", two, dict(n=6, free=(1,), frame=True))]
    if tier != "quick":
        out += [S("n=4 two free", one, dict(n=4, free=(1, 2))), S("n=5 two free", one, dict(n=5, free=(1, 2)))]
    return out
