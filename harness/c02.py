"""weighted_median returns an observation that splits the weight in half."""
from symrob.runner import Scenario
from harness.common import sum_

FUNCTIONS = ["utils.median.weighted_median"]
BOUNDS = "n<=4 observations in any order with ties, n=5 with at most two free values; real weights >= 0, positive total"
BUDGET = 30


def wm(ctx, n, pos=True, conc=None, wconc=None):
    from robpy.utils.median import weighted_median

    if conc is None:
        x = ctx.vec("x", n)
    else:
        x = ctx.array([ctx.real(f"x{i}") if c is None else ctx.const(c) for i, c in enumerate(conc)])
    if wconc is not None:
        w = ctx.array([ctx.real(f"w{i}", sign="nonneg") if c is None else ctx.const(c) for i, c in enumerate(wconc)])
    else:
        w = ctx.vec("w", n, sign="pos" if pos else "nonneg")
    if not pos:
        ctx.assume(sum_(list(w)), ">", 0)
    xc, wc = list(x), list(w)
    m = weighted_median(x, w)
    ctx.observe("median", m)
    tot = sum_(wc)
    below = sum_([wi for xi, wi in zip(xc, wc) if ctx.if_(xi, "<", m)])
    above = sum_([wi for xi, wi in zip(xc, wc) if ctx.if_(xi, ">", m)])
    ctx.check(ctx.any([ctx.eq(xi, m, 0) for xi in xc]), "the result is one of the observations")
    ctx.check(ctx.le(2 * below, tot, 1e-9), "at most half of the weight lies strictly below the result")
    ctx.check(ctx.le(2 * above, tot, 1e-9), "at most half of the weight lies strictly above the result")
    ctx.check(ctx.all([ctx.eq(a, b, 0) for a, b in zip(x, xc)] + [ctx.eq(a, b, 0) for a, b in zip(w, wc)]),
              "inputs are left unchanged")


def scenarios(tier):
    S = Scenario
    out = [S(f"n={n}", wm, dict(n=n)) for n in (1, 2, 3)]
    out.append(S("n=3 zero weights allowed", wm, dict(n=3, pos=False)))
    out.append(S("n=4 integer weights", wm, dict(n=4, wconc=[3, 1, 2, 2])))
    out.append(S("n=5 two free values", wm, dict(n=5, conc=[4, None, 1, None, 2.5], wconc=[1, 4, 2, None, 3])))
    out.append(S("n=6 two free weights", wm, dict(n=6, conc=[4, None, 1, 3, 2.5, 3], wconc=[1, 4, 2, None, 3, None])))
    if tier != "quick":
        out.append(S("n=4", wm, dict(n=4)))
        out.append(S("n=5 integer weights", wm, dict(n=5, wconc=[3, 1, 2, 2, 1])))
    return out
