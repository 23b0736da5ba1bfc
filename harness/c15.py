"""OGK equals its definition; symmetric; reweighting keeps exactly the observations below the cutoff."""
import numpy as np
from scipy import stats

from symrob.runner import Scenario
from harness.common import below_, cov_, mad_, maha2_, median_, sort_
from harness.c13 import data
from harness.c14 import sample

FUNCTIONS = ["covariance.ogk.OGK.calculate_covariance", "covariance.base.RobustCovariance.fit"]
BOUNDS = ("n=5..8, p=2: one coordinate free in [-1000, 1000], 0-3 orthogonalisation iterations, three pairs of location and scale functions; "
          "n=20..40, p=2, 3: every shift of concrete samples")
STUBS = ["median, median_abs_deviation: exact stand-ins (order statistics by comparison)"]
BUDGET = 60
SQ = 2 ** -0.5


def std_(ctx, xs):
    m = sum(xs[1:], xs[0]) / len(xs)
    return ctx.sqrt(sum([(v - m) * (v - m) for v in xs[1:]], (xs[0] - m) * (xs[0] - m)) / len(xs))


def mean(ctx, xs):
    return sum(xs[1:], xs[0]) / len(xs)


LS = {"mad": (median_, mad_), "mean/mad": (mean, mad_), "mean/std": (mean, std_)}


def ogk2(ctx, rows, it, loc, scale):
    """bivariate OGK: location and 2x2 scatter (the eigenvectors of a 2x2 correlation are the diagonals)"""
    cols = [[r[j] for r in rows] for j in range(2)]
    back = []
    for _ in range(it):
        s = [scale(ctx, c) for c in cols]
        if any(ctx.if_(v, "==", 0) for v in s):
            ctx.stop()
        y = [[v / s[j] for v in cols[j]] for j in range(2)]
        a, b = scale(ctx, [u + v for u, v in zip(*y)]), scale(ctx, [u - v for u, v in zip(*y)])
        if ctx.if_(a, "==", b):  # zero correlation: any basis is an eigenbasis
            ctx.stop()
        cols = [[(u + v) * SQ for u, v in zip(*y)], [(u - v) * SQ for u, v in zip(*y)]]
        back.append(s)
    mu = [loc(ctx, c) for c in cols]
    v = [scale(ctx, c) for c in cols]
    C = [[v[0] * v[0], 0], [0, v[1] * v[1]]]
    for s in reversed(back):
        M = [[s[0] * SQ, s[0] * SQ], [s[1] * SQ, -s[1] * SQ]]
        mu = [M[i][0] * mu[0] + M[i][1] * mu[1] for i in range(2)]
        C = [[sum(M[i][a] * C[a][b] * M[j][b] for a in range(2) for b in range(2)) for j in range(2)] for i in range(2)]
    return mu, C


def reweight(ctx, rows, mu, C, beta):
    p = len(mu)
    d = [maha2_(r, mu, C) for r in rows]
    s = sort_(ctx, d)
    n = len(s)
    cut = s[n // 2] if n % 2 else None
    if cut is None:
        a = (ctx.sqrt(s[n // 2 - 1]) + ctx.sqrt(s[n // 2])) / 2
        cut = a * a
    cut = cut * (float(stats.chi2.ppf(beta, p)) / float(stats.chi2.ppf(0.5, p)))
    keep = [r for r, v in zip(rows, d) if below_(ctx, v, cut)]
    if len(keep) < 2:
        ctx.stop()
    return cov_(keep)


def definition(ctx, n, free, it, ls="mad", rw=False, beta=0.9, lim=1000):
    from robpy.covariance import OGK
    from scipy.stats import median_abs_deviation

    X = data(ctx, n, 2, free, lim)
    rows = [list(r) for r in X]
    kw = {}
    if ls == "mean/mad":
        kw = dict(location_estimator=np.mean)
    if ls == "mean/std":
        kw = dict(location_estimator=np.mean, scale_estimator=np.std)
    if it != 2:
        kw["n_iterations"] = it
    if rw:
        kw.update(reweighting=True, reweighting_beta=beta)
    mu, C = ogk2(ctx, rows, it, *LS[ls])
    for j in range(2):
        if ctx.if_(C[j][j], "==", 0):
            ctx.stop()
    if ctx.if_(C[0][0] * C[1][1] - C[0][1] * C[1][0], "==", 0):
        ctx.stop()
    if rw:
        mu, C = reweight(ctx, rows, mu, C, beta)
        if ctx.if_(C[0][0] * C[1][1] - C[0][1] * C[1][0], "==", 0):
            ctx.stop()
    e = OGK(**kw).fit(X)
    ctx.check(ctx.all([ctx.eq(e.location_[j], mu[j]) for j in range(2)]), "location")
    ctx.check(ctx.all([ctx.eq(e.covariance_[i, j], C[i][j], 1e-5) for i in range(2) for j in range(2)]), "scatter")


def shifted(ctx, n, p, seed, it, rw, beta=0.9):
    """every shift of a concrete sample: equal to the OGK estimate of the unshifted one by the harness' own definition"""
    from robpy.covariance import OGK

    b = ctx.real("b", lo=-1000, hi=1000)
    B = sample(n, p, seed).astype(float)
    X = ctx.array([[b * (j + 1) + ctx.const(float(v)) for j, v in enumerate(r)] for r in B])
    Z, DE = B, []
    mad = lambda a: stats.median_abs_deviation(a, axis=0)
    for _ in range(it):
        s = mad(Z)
        Y = Z / s
        U = np.array([[(mad(Y[:, i] + Y[:, j]) ** 2 - mad(Y[:, i] - Y[:, j]) ** 2) / (mad(Y[:, i] + Y[:, j]) ** 2 + mad(Y[:, i] - Y[:, j]) ** 2)
                       for j in range(p)] for i in range(p)])
        E = np.linalg.eigh(U)[1]
        Z = Y @ E
        DE.append(np.diag(s) @ E)
    mu, C = np.median(Z, axis=0), np.diag(mad(Z) ** 2)
    for M in DE[::-1]:
        mu, C = M @ mu, M @ C @ M.T
    if rw:
        d = np.sqrt(np.einsum("ij,jk,ik->i", B - mu, np.linalg.inv(C), B - mu))
        keep = d < np.sqrt(stats.chi2.ppf(beta, p) / stats.chi2.ppf(0.5, p)) * np.median(d)
        mu, C = B[keep].mean(0), np.cov(B[keep], rowvar=False)
    e = OGK(n_iterations=it, reweighting=rw, reweighting_beta=beta).fit(X)
    ctx.check(ctx.all([ctx.eq(e.location_[j], mu[j] + b * (j + 1), 1e-5) for j in range(p)]), "location of a shifted sample")
    ctx.check(ctx.all([ctx.eq(e.covariance_[i, j], C[i, j], 1e-5) for i in range(p) for j in range(p)]), "scatter of a shifted sample")


def scenarios(tier):
    S = Scenario
    out = [S("n=6 two iterations", definition, dict(n=6, free=[(2, 0)], it=2)),
           S("n=5 one iteration", definition, dict(n=5, free=[(1, 1)], it=1)),
           S("n=5 no iteration", definition, dict(n=5, free=[(0, 1)], it=0)),
           S("n=6 mean and MAD", definition, dict(n=6, free=[(3, 1)], it=1, ls="mean/mad")),
           S("n=6 mean and standard deviation", definition, dict(n=6, free=[(3, 1)], it=1, ls="mean/std")),
           S("n=7 reweighted", definition, dict(n=7, free=[(3, 1)], it=1, rw=True)),
           S("n=7 reweighted beta=0.7", definition, dict(n=7, free=[(4, 0)], it=1, rw=True, beta=0.7))]
    for k in range(4 if tier == "quick" else 12):
        out.append(S(f"n={20 + 5 * k} shifted sample {k}", shifted, dict(n=20 + 5 * k, p=2 + k % 2, seed=k, it=1 + k // 2, rw=bool(k % 2))))
    return out
