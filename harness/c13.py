"""MCD search: C-steps to convergence and selection of the best h-subset."""
from fractions import Fraction

import numpy as np

from symrob.runner import Scenario
from harness.common import cov_, det_, maha2_, sort_
from harness.c12 import D, D3

FUNCTIONS = ["covariance.mcd.FastMCD.calculate_covariance", "covariance.mcd.FastMCD._perform_c_step",
             "covariance.mcd.FastMCD._perform_multiple_c_steps", "covariance.mcd.FastMCD._get_subset",
             "covariance.mcd.FastMCD._get_initial_subsets", "covariance.mcd.DetMCD.calculate_covariance",
             "covariance.mcd.DetMCD._perform_c_step", "covariance.mcd.DetMCD._get_initial_best_subsets",
             "utils.distance.mahalanobis_distance"]
STUBS = ["random generator: the real numpy generator (concrete seeds), with the drawn initial subsets recorded"]
BOUNDS = ("n=7..9, p=2: one observation coordinate free in [-1000, 1000], the others concrete; 2-4 initial subsets, three seeds, one or two "
          "partitions, 0-2 best subsets kept; n=20..37 and 600..605: every shift of concrete samples")
BUDGET = 60
M = [[0.0, 0.0], [1.5, 0.5], [-1.25, -0.5], [2.0, 3.25], [-0.5, -1.0], [0.75, -2.5], [-3.0, 1.75], [4.5, 2.125], [-2.25, -0.875]]


class Rec:
    """numpy generator that remembers the index sets it handed out"""

    def __init__(self, g, log):
        self.g = g
        self.log = log

    def __getattr__(self, n):
        f = getattr(self.g, n)
        if n != "choice":
            return f

        def choice(*a, **k):
            r = f(*a, **k)
            self.log.append(np.array(r).reshape(-1))
            return r

        return choice


def record(ctx):
    log = []
    real = np.random.default_rng
    if ctx.symbolic:
        from symrob import patch

        class R:
            @staticmethod
            def default_rng(seed=None):
                return seed if isinstance(seed, Rec) else Rec(real(seed), log)

        patch.RNG = R

        def undo():
            patch.RNG = None
    else:
        np.random.default_rng = lambda seed=None: seed if isinstance(seed, Rec) else Rec(real(seed), log)

        def undo():
            np.random.default_rng = real

    ctx.cleanup.append(undo)
    return log, undo


def data(ctx, n, p, free, lim=1000):
    B = (D if p == 2 else D3)[:n]
    return ctx.array([[ctx.real(f"x{i}{j}", lo=-lim, hi=lim) if (i, j) in free else ctx.const(float(B[i][j])) for j in range(p)]
                      for i in range(n)])


def c_step(ctx, rows, idx, h):
    """own C-step: the h observations closest to the mean of the subset in its metric"""
    mu, C = cov_([rows[i] for i in idx])
    d = [maha2_(r, mu, C) for r in rows]
    out = []
    for i in range(len(rows)):  # insertion by distance, ties to the lower index
        k = len(out)
        while k > 0 and ctx.if_(d[out[k - 1]], ">", d[i]):
            k -= 1
        out.insert(k, i)
    if h < len(out) and ctx.if_(d[out[h - 1]], "==", d[out[h]]):
        ctx.stop()  # a tie at the boundary: either subset is a C-step
    return out[:h]


def fast(ctx, n, p, free, n_init, n_best, alpha=None, parts=None, h=None):
    from robpy.covariance.mcd import FastMCD

    seed = (7, 19, 3)[ctx.choose(3)]
    X = data(ctx, n, p, free)
    rows = [list(r) for r in X]
    log, undo = record(ctx)
    try:
        e = FastMCD(alpha=alpha, n_initial_subsets=n_init, n_best_subsets=n_best, n_partitions=parts, reweighting=False,
                    correct_covariance=False, random_seed=seed, verbosity=50).fit(X)
    finally:
        undo()
    idx = [int(i) for i in e.best_subset.indices]
    if not parts:  # exact distance ties within an initial subset are broken by rounding
        ctx.observe("loc", e.location_)
    h = h or (n + p + 1) // 2
    common(ctx, e, rows, idx, h)
    if parts:
        return
    d = det_(cov_([rows[i] for i in idx])[1])
    starts = [s.tolist() for s in log if s.size == p + 1]
    ctx.check(len(starts) == n_init and all(len(set(s)) == p + 1 for s in starts),
              "every requested initial subset has p+1 distinct observations")
    for s in starts:
        if ctx.if_(det_(cov_([rows[i] for i in s])[1]), "==", 0):
            continue  # extended at random
        s = np.array(s)
        t = c_step(ctx, rows, c_step(ctx, rows, s.tolist(), h), h)
        ctx.check(ctx.le(d, det_(cov_([rows[i] for i in t])[1]), 1e-5),
                  "no initial subset is better after its C-steps than the selected subset")


def starts(ctx, n, p, seed, n_init, n_best, steps, scale=False):
    """every shift of a concrete sample: the selected subset beats the fully iterated kept starts"""
    from robpy.covariance.mcd import FastMCD
    from harness.c14 import sample

    b = ctx.real("b", lo=-1000, hi=1000)
    X = ctx.array([[b + ctx.const(float(v)) for v in r] for r in sample(n, p, seed)])
    rows = [list(r) for r in X]
    log, undo = record(ctx)
    try:
        e = FastMCD(n_initial_subsets=n_init, n_best_subsets=n_best, n_initial_c_steps=steps, reweighting=False,
                    correct_covariance=False, random_seed=seed, verbosity=50).fit(X)
    finally:
        undo()
    idx = [int(i) for i in e.best_subset.indices]
    h = (n + p + 1) // 2
    common(ctx, e, rows, idx, h)
    d = det_(cov_([rows[i] for i in idx])[1])
    cand = []
    for s in [s.tolist() for s in log if s.size == p + 1]:
        if ctx.if_(det_(cov_([rows[i] for i in s])[1]), "==", 0):
            continue
        for _ in range(2 * steps):
            s = c_step(ctx, rows, s, h)
        cand.append((det_(cov_([rows[i] for i in s])[1]), s))
    cand = [c for c in cand if sum(1 for o in cand if ctx.if_(o[0], "<", c[0])) < n_best]  # kept for the final C-steps
    for v, s in cand:
        while True:
            t = c_step(ctx, rows, s, h)
            if set(t) == set(s):
                break
            s = t
        ctx.check(ctx.le(d, det_(cov_([rows[i] for i in s])[1]), 1e-5),
                  "no kept subset is better after iterating C-steps to convergence than the selected subset")


def groups(ctx, n, q, seed):
    """more than 600 observations are split into five groups unless the number of groups is given"""
    from robpy.covariance.mcd import FastMCD
    from harness.c43 import sample

    b = ctx.real("b", lo=-1000, hi=1000)
    X = [[ctx.const(float(v)) + b * (1 - 2 * j) for j, v in enumerate(r)] for r in sample(n, 2, seed, seed % 4)]
    kw = dict(n_initial_subsets=5, n_best_subsets=1, n_initial_c_steps=1, random_seed=seed, reweighting=False, correct_covariance=False, verbosity=50)
    e = FastMCD(**kw).fit(ctx.array(X))
    f = FastMCD(n_partitions=q, **kw).fit(ctx.array(X))
    ctx.check(ctx.all([ctx.eq(u, v) for u, v in zip(list(e.location_), list(f.location_))]), "location: as with the documented number of groups")
    ctx.check(ctx.all([ctx.eq(e.covariance_[i, j], f.covariance_[i, j]) for i in range(2) for j in range(2)]), "scatter: as with the documented number of groups")


def common(ctx, e, rows, idx, h):
    mu, C = cov_([rows[i] for i in idx])
    ctx.check(len(idx) == h and len(set(idx)) == h, "the selected subset has h distinct observations")
    ctx.check(ctx.all([ctx.eq(e.location_[j], mu[j]) for j in range(len(mu))]), "raw location is the mean of the selected subset")
    ctx.check(ctx.all([ctx.eq(e.covariance_[a, b], C[a][b], 1e-5) for a in range(len(mu)) for b in range(len(mu))]),
              "raw scatter is the covariance of the selected subset")
    nxt = c_step(ctx, rows, idx, h)
    if set(nxt) != set(idx):
        ctx.check(ctx.ge(det_(cov_([rows[i] for i in nxt])[1]), det_(C), 1e-6),
                  "converged: one more C-step does not reduce the determinant")


def det(ctx, n, p, alpha=None, h=None, scale=False, base=None):
    """every shift (and scale) of the data"""
    from robpy.covariance.mcd import DetMCD

    k = ctx.real("k", lo=Fraction(1, 8), hi=8) if scale else ctx.const(1)
    b = ctx.real("b", lo=-1000, hi=1000)
    base = base or (D if p == 2 else D3)[:n]
    X = ctx.array([[k * ctx.const(float(v)) + (b if not scale else 0) for v in r] for r in base])
    rows = [list(r) for r in X]
    e = DetMCD(alpha=alpha, reweighting=False, correct_covariance=False, verbosity=50).fit(X)
    idx = [int(i) for i in e.best_subset.indices]
    ctx.observe("loc", e.location_)
    common(ctx, e, rows, idx, h or (n + p + 1) // 2)


def scenarios(tier):
    S = Scenario
    out = [S("FastMCD n=7 two starts", fast, dict(n=7, p=2, free=[(2, 0)], n_init=2, n_best=2)),
           S("FastMCD n=8 three starts one kept", fast, dict(n=8, p=2, free=[(5, 1)], n_init=3, n_best=1)),
           S("FastMCD n=8 alpha=0.8", fast, dict(n=8, p=2, free=[(0, 1)], n_init=2, n_best=2, alpha=0.8, h=6)),
           S("FastMCD n=10 two partitions", fast, dict(n=10, p=2, free=[(1, 0)], n_init=2, n_best=2, parts=2)),
           ] + [S(f"FastMCD n={30 + k} shifted sample {k}", starts, dict(n=30 + k, p=2, seed=k, n_init=6, n_best=(6, 3)[k % 2], steps=1 + k // 8))
                for k in range(8 if tier == "quick" else 24)] + [
           ] + [S(f"FastMCD n={n} shifted sample {k}, a later subset ends up better", starts, dict(n=n, p=2, seed=k, n_init=6, n_best=6, steps=1))
                for n, k in ((20, 23), (20, 85), (24, 30), (24, 49), (30, 7), (30, 111), (34, 15), (34, 81), (34, 111))] + [
           ] + [S(f"FastMCD n={n}: {q} groups by default, sample {k}", groups, dict(n=n, q=q, seed=k), path_timeout=60)
                for n, q, k in ((600, 1, 22), (605, 5, 22)) + (((600, 1, 5), (600, 1, 19), (605, 5, 21), (605, 5, 23), (601, 5, 22)) if tier != "quick" else ())] + [
           S("DetMCD n=9 shifted", det, dict(n=9, p=2)),
           S("DetMCD n=9 scaled", det, dict(n=9, p=2, scale=True)),
           S("DetMCD n=9 with an observation at the coordinatewise median", det, dict(n=9, p=2, base=M)),
           S("DetMCD n=9 scaled with an observation at the coordinatewise median", det, dict(n=9, p=2, scale=True, base=M)),
           ]
    return out
