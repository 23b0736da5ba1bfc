"""UnivariateMCD: minimum-variance h-subset, then one reweighting step."""
import itertools
import math

from scipy.stats import chi2, gamma

from symrob.runner import Scenario
from harness.common import below_, mean_, sorted_assume, var_

FUNCTIONS = ["univariate.mcd.UnivariateMCD._calculate", "univariate.mcd.UnivariateMCD._get_raw_estimates",
             "univariate.mcd.UnivariateMCD._reweighting", "univariate.mcd.UnivariateMCD._set_h_size",
             "univariate.base.RobustScale.fit"]
BOUNDS = "n=3 any order, n=4 any order with two values standardised to 0 and 1, n=4 sorted, n=5 sorted and standardised to the range [0,1], n=8 with one free value"
BUDGET = 40
Q = float(chi2.ppf(0.975, 1))


def mcd(ctx, n, alpha=None, cc=True, srt=False, conc=None, h=None, reweight=True):
    from robpy.univariate import UnivariateMCD

    if conc is not None:
        x = ctx.array([ctx.real(f"x{i}") if c is None else ctx.const(c) for i, c in enumerate(conc)])
    else:
        x = ctx.vec("x", n)
    if srt:
        sorted_assume(ctx, x)
    xs = list(x)
    h = h or n // 2 + 1
    e = UnivariateMCD(alpha=alpha, consistency_correction=cc).fit(x)
    ctx.observe("raw_loc", e.raw_location_)
    ctx.observe("raw_var", e.raw_variance_)
    if h == n:
        ctx.check(ctx.eq(e.location, mean_(xs)), "with h=n the location is the mean")
        ctx.check(ctx.eq(e.scale * e.scale, var_(xs)), "with h=n the scale is the standard deviation")
        ctx.check(ctx.eq(e.raw_location_, mean_(xs)), "with h=n the raw location is the mean")
        return
    fac = (h / n) / float(chi2.cdf(chi2.ppf(h / n, 1), 3)) if cc else 1.0
    raw = e.raw_variance_ / fac
    subs = list(itertools.combinations(range(n), h))
    vs = [var_([xs[i] for i in c]) for c in subs]
    ctx.check(ctx.all([ctx.le(raw, v * (1 + 1e-9) if cc else v, 1e-7) for v in vs]), "no h-subset has a smaller variance")
    ctx.check(ctx.any([ctx.eq(raw, v, 1e-7) & ctx.eq(e.raw_location_, mean_([xs[i] for i in c]), 1e-7)
                       for c, v in zip(subs, vs)]),
              "raw location and variance are those of one h-subset")
    ctx.check(ctx.eq(e.raw_scale_ * e.raw_scale_, e.raw_variance_), "raw scale is the root of the raw variance")
    if not reweight:
        return
    # reweighting, decided from the reported raw estimates
    keep = []
    for v in xs:
        d = (v - e.raw_location_) * (v - e.raw_location_)
        if ctx.if_(d, "==", 0) or below_(ctx, d, e.raw_variance_ * Q):
            keep.append(v)
    if not keep:
        ctx.check(ctx.any([]), "the reweighting step keeps some observation")
        return
    d = len(keep) / n
    f2 = d / float(gamma.cdf(chi2.ppf(d, 1) / 2, 1.5)) if cc else 1.0
    ctx.check(ctx.eq(e.location, mean_(keep)), "location is the mean of the observations within the 97.5% cutoff")
    ctx.check(ctx.eq(e.variance_, var_(keep) * f2),
              "variance is the (corrected) variance of the observations within the cutoff")
    ctx.check(ctx.eq(e.scale * e.scale, e.variance_), "scale is the root of the variance")
    ctx.check(ctx.all([ctx.eq(a, b, 0) for a, b in zip(x, xs)]), "input unchanged")


def scenarios(tier):
    S = Scenario
    out = [S("n=3 raw estimates any order", mcd, dict(n=3, cc=False, reweight=False)),
           S("n=3 corrected sorted", mcd, dict(n=3, srt=True)),
           S("n=4 sorted", mcd, dict(n=4, cc=False, srt=True)),
           S("n=4 raw estimates any order", mcd, dict(n=4, conc=[None, 0, None, 1], cc=False, reweight=False)),
           S("n=5 raw estimates sorted", mcd, dict(n=5, conc=[0, None, None, None, 1], cc=False, srt=True, reweight=False)),
           S("n=5 raw estimates h=4", mcd, dict(n=5, alpha=4, h=4, cc=False, conc=[0, None, None, None, 1], srt=True, reweight=False)),
           S("n=8 one free value", mcd, dict(n=8, conc=[0.3, None, -1.2, 2.2, 0.9, -0.4, 1.4, 7.5])),
           S("n=8 one free value alpha=0.75", mcd, dict(n=8, alpha=0.75, h=6,
                                                      conc=[0.3, -6.5, -1.2, None, 0.9, -0.4, 1.4, 7.5])),
           S("n=8 one free value alpha=4 (below the minimum)", mcd, dict(n=8, alpha=4, h=5, conc=[0.3, None, -1.2, 2.2, 0.9, -0.4, 1.4, 7.5])),
           S("n=8 one free value alpha=0.5 (below the minimum)", mcd, dict(n=8, alpha=0.5, h=5, conc=[0.3, -6.5, None, 2.2, 0.9, -0.4, 1.4, 7.5])),
           S("n=4 h=n", mcd, dict(n=4, alpha=1.0, h=4)),
           S("n=5 h=n integer", mcd, dict(n=5, alpha=5, h=5))]
    if tier != "quick":
        out += [S("n=4 raw estimates any order, all free", mcd, dict(n=4, cc=False, reweight=False), check_ms=20000),
                S("n=5 sorted", mcd, dict(n=5, conc=[0, None, None, None, 1], srt=True), check_ms=20000),
                S("n=6 raw sorted", mcd, dict(n=6, conc=[0, None, None, None, None, 1], srt=True, cc=False,
                                              reweight=False), check_ms=20000)]
    return out
