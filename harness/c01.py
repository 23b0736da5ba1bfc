"""Qn is the exact order statistic of the pairwise distances, times the documented factors."""
import itertools

import numpy as np

from symrob.runner import Scenario

FUNCTIONS = ["univariate.qn.Qn._calculate", "univariate.qn._get_small_sample_dn", "utils.median.weighted_median",
             "univariate.base.RobustScale.fit"]
BOUNDS = ("n<=4 in any order with every value free, n=5 sorted with three free values, n=6..12 with one free value, multiples of a free unit (n=6..40); "
          "all real values including ties")
BUDGET = 40
BUDGET_THOROUGH = 600
DN = {2: 0.399, 3: 0.994, 4: 0.512, 5: 0.844, 6: 0.611, 7: 0.857, 8: 0.669, 9: 0.872}


def dn(n):
    return DN[n] if n <= 9 else (n / (n + 1.4) if n % 2 else n / (n + 3.8))


def qn_def(ctx, n, sorted_=False, cc=False, fc=False, conc=None):
    from robpy.univariate import Qn

    if conc is None:
        x = ctx.vec("x", n)
    else:
        x = ctx.array([ctx.real(f"x{i}") if c is None else ctx.const(c) for i, c in enumerate(conc)])
    if sorted_:
        for i in range(n - 1):
            ctx.assume(x[i], "<=", x[i + 1])
    q = Qn(consistency_correction=cc, finite_correction=fc).fit(x).scale
    ctx.observe("scale", q)
    f = (dn(n) if fc else 1.0) * (2.219144 if cc else 1.0)
    h = n // 2 + 1
    k = h * (h - 1) // 2
    raw = q / f if f != 1.0 else q
    lo, hi = [], []
    tol = 1e-7
    for i in range(n):
        for j in range(i):
            d = x[i] - x[j]
            # |d| < raw - tol ;  |d| <= raw + tol
            lo.append(ctx.lt(d, raw - tol) & ctx.gt(d, tol - raw))
            hi.append(ctx.le(d, raw + tol, 0) & ctx.ge(d, -raw - tol, 0))
    ctx.check(ctx.count_le(lo, k - 1), "at most k-1 pairwise distances are smaller")
    ctx.check(ctx.count_ge(hi, k), "at least k pairwise distances are not larger")


BASE = [0.3, 2.25, -1.2, 2.2, 0.9, -0.4, 1.4, 7.5, 3.1, -2.6, 0.55, 1.05, 4.4, -0.95]


def grid(ctx, n, seed, at, lim=20):
    """multiples of a unit that is no binary fraction: the exact ties of the distances are broken by rounding"""
    from robpy.univariate import Qn

    u = ctx.real("u", lo=at * 0.999, hi=at * 1.001)
    g = [int(v) for v in np.random.default_rng(seed).integers(-lim, lim, n)]
    q = Qn(consistency_correction=False, finite_correction=False).fit(ctx.array([v * u for v in g])).scale
    h = n // 2 + 1
    d = sorted(abs(a - b) for i, a in enumerate(g) for b in g[:i])[h * (h - 1) // 2 - 1]
    ctx.check(ctx.eq(q, d * u), "the order statistic of the distances")


def one_free(n, at):
    return [None if i in at else v for i, v in enumerate(BASE[:n])]


def scenarios(tier):
    S = Scenario
    out = []
    for n in (2, 3, 4):
        out.append(S(f"Qn raw any order n={n}", qn_def, dict(n=n)))
        out.append(S(f"Qn corrected sorted n={n}", qn_def, dict(n=n, sorted_=True, cc=True, fc=True)))
    out.append(S("Qn corrected n=5 sorted, range standardised", qn_def,
                 dict(n=5, conc=[0, None, None, None, 1], sorted_=True, cc=True, fc=True)))
    for n in (6, 7, 8, 9, 10, 11, 12):
        out.append(S(f"Qn corrected n={n} one free value", qn_def,
                     dict(n=n, conc=one_free(n, (n // 2,)), cc=True, fc=True)))
    out.append(S("Qn finite-sample factor only n=10", qn_def, dict(n=10, conc=one_free(10, (1,)), fc=True)))
    out.append(S("Qn consistency factor only n=7", qn_def, dict(n=7, conc=one_free(7, (1,)), cc=True)))
    for n, seed, at in ((6, 45, 0.1), (6, 86, 0.1), (6, 138, 0.1), (6, 129, 0.14), (7, 84, 0.1), (7, 138, 0.1), (7, 105, 3.3), (8, 105, 3.3), (8, 138, 0.1),
                        (9, 71, 3.3), (10, 48, 0.1), (13, 24, 0.1), (14, 24, 0.1), (14, 24, 0.33), (21, 3, 0.7), (40, 4, 0.1)):
        out.append(S(f"Qn n={n} multiples of a unit near {at}, sample {seed}", grid, dict(n=n, seed=seed, at=at), hang_is_violation=True))
    if tier != "quick":
        for k in range(60):
            out.append(S(f"Qn n={6 + k % 12} multiples of a unit, sample {k}", grid, dict(n=6 + k % 12, seed=1000 + k, at=(0.1, 0.3, 1.4)[k % 3], lim=12), hang_is_violation=True))
        out.append(S("Qn raw any order n=5", qn_def, dict(n=5), max_paths=10**6))
        out.append(S("Qn raw n=6 two free values", qn_def, dict(n=6, conc=one_free(6, (1, 4)))))
        out.append(S("Qn corrected n=5, two values standardised", qn_def,
                     dict(n=5, conc=[None, 0, None, 1, None], cc=True, fc=True), max_paths=10**6))
        out.append(S("Qn raw sorted n=6", qn_def, dict(n=6, sorted_=True), max_paths=10**6))
        for n in (9, 10, 13, 14):
            out.append(S(f"Qn corrected n={n} two free values", qn_def,
                         dict(n=n, conc=one_free(n, (2, n - 1)), cc=True, fc=True)))
    return out
