"""MCD post-processing: consistency correction, reweighting, truncation factor."""
import numpy as np
from scipy import stats

from symrob.runner import Scenario
from harness.common import below_, cov_, maha2_, sort_
from harness.c12 import D, D3
from harness.c13 import data

FUNCTIONS = ["covariance.mcd.FastMCD.calculate_covariance", "covariance.mcd.FastMCD._correct_covariance",
             "covariance.mcd.DetMCD.calculate_covariance", "covariance.mcd.DetMCD._correct_covariance",
             "utils.distance.mahalanobis_distance"]
STUBS = ["random generator: the real numpy generator with concrete seeds", "chi2, gamma: exact values of the real functions at concrete arguments"]
BOUNDS = ("n=8..19, p=2, 3: one observation coordinate free in [-1000, 1000], the others concrete (FastMCD); every shift of a concrete sample "
          "and one free coordinate within +-2 of it (DetMCD); all four switch combinations")
BUDGET = 60


def post(ctx, est, n, p, free, cc, rw, lim=1000, around=None, kw={}):
    from robpy.covariance.mcd import FastMCD, DetMCD

    X = data(ctx, n, p, free, lim)
    rows = [list(r) for r in X]
    if est == "FastMCD":
        kw = dict(n_initial_subsets=2, n_best_subsets=1, random_seed=7, **kw)
    e = (FastMCD if est == "FastMCD" else DetMCD)(correct_covariance=cc, reweighting=rw, verbosity=50, **kw).fit(X)
    idx = [int(i) for i in e.best_subset.indices]
    check(ctx, e, rows, idx, n, p, cc, rw)


def shifted(ctx, n, p, cc, rw, seed=None):
    """every shift of a concrete sample (seed: a pseudo-random one with two clusters of outliers)"""
    from robpy.covariance.mcd import DetMCD

    b = ctx.real("b", lo=-1000, hi=1000)
    X = ctx.array([[b + ctx.const(float(v)) for v in r] for r in sample(n, p, seed)])
    rows = [list(r) for r in X]
    e = DetMCD(correct_covariance=cc, reweighting=rw, verbosity=50).fit(X)
    check(ctx, e, rows, [int(i) for i in e.best_subset.indices], n, p, cc, rw)


def sample(n, p, seed):
    if seed is None:
        return (D if p == 2 else D3)[:n]
    g = np.random.default_rng(seed)
    B = g.integers(-24, 25, (n, p)) + g.integers(-24, 25, (n, p))
    B[:n // 8] += 90
    B[n // 8:n // 5, 0] -= 120
    return B / 8


def check(ctx, e, rows, idx, n, p, cc, rw):
    mu, C = cov_([rows[i] for i in idx])
    if cc:
        d = sort_(ctx, [maha2_(r, mu, C) for r in rows])
        med = d[n // 2] if n % 2 else (d[n // 2 - 1] + d[n // 2]) / 2
        f = med / float(stats.chi2.ppf(0.5, p))
        C = [[f * v for v in r] for r in C]
    if rw:
        q = float(stats.chi2.ppf(0.975, p))
        keep = []
        for i, r in enumerate(rows):
            d = maha2_(r, mu, C)
            if below_(ctx, d, ctx.const(q)):
                keep.append(i)
        ctx.check(len(keep) > 2, "reweighting keeps observations")
        mu, C = cov_([rows[i] for i in keep])
        if cc:
            f = 0.975 / float(stats.gamma.cdf(stats.chi2.ppf(0.975, p) / 2, p / 2 + 1))
            C = [[f * v for v in r] for r in C]
    ctx.check(ctx.all([ctx.eq(e.location_[j], mu[j]) for j in range(p)]), "location")
    ctx.check(ctx.all([ctx.eq(e.covariance_[a, b], C[a][b], 1e-5) for a in range(p) for b in range(p)]), "scatter")


def scenarios(tier):
    S = Scenario
    out = []
    for cc in (True, False):
        for rw in (True, False):
            t = f"correction {'on' if cc else 'off'}, reweighting {'on' if rw else 'off'}"
            out.append(S(f"FastMCD n=8 {t}", post, dict(est="FastMCD", n=8, p=2, free=[(3, 1)], cc=cc, rw=rw)))
            out.append(S(f"DetMCD n=9 shifted {t}", shifted, dict(n=9, p=2, cc=cc, rw=rw)))
    out.append(S("FastMCD n=9 p=3", post, dict(est="FastMCD", n=9, p=3, free=[(4, 1)], cc=True, rw=True, kw=dict(alpha=0.8))))
    out.append(S("DetMCD n=10 p=3 shifted", shifted, dict(n=10, p=3, cc=True, rw=True)))
    for k in range(4 if tier == "quick" else 12):
        out.append(S(f"DetMCD n={16 + k} shifted sample {k}", shifted, dict(n=16 + k, p=2 + k % 2, cc=True, rw=True, seed=k)))
    return out
