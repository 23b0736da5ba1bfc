"""Robust PCA: projections, outlier map, spherical PCA and ROBPCA."""
import math

import numpy as np
from scipy import stats

from symrob.runner import Scenario
from harness.c13 import record
from harness.c28 import no_plot
from harness.c38 import optimal
from harness.common import mad_, mean_, sum_, var_

FUNCTIONS = ["pca.base.RobustPCA.transform", "pca.base.RobustPCA.project", "pca.base.RobustPCA.plot_outlier_map", "pca.base.get_od_cutoff",
             "pca.spca.PCALocantore.fit", "pca.robpca.ROBPCA.fit", "utils.outlyingness.stahel_donoho", "utils.median.l1median",
             "covariance.mcd.FastMCD.fit"]
STUBS = ["sklearn PCA and eigen-decompositions of more than two variables: real routines on the numbers left after factoring out the unit of measurement",
         "random generator: the real numpy generator (concrete seeds), with the drawn observations recorded", "matplotlib axes: recording stand-in",
         "constants of the iterations kept with 128 significant bits"]
BOUNDS = ("projections: all points in [-1000, 1000]^p, p=2..3, of fixed subspaces; spherical PCA: n=9..12, p=2..3, every shift in [-1000, 1000], every "
          "scale in [10^-3, 10^3]; ROBPCA: n=14..20, p=2..4, every shift and scale, two seeds, with and without the final MCD step")
BUDGET = 60

Z = [[0.5, 1.0, -0.25], [2.5, 0.75, 0.5], [-4.0, -1.5, 0.125], [6.25, 3.0, -0.5], [-1.75, -0.25, 0.75], [3.5, 1.25, -1.0], [-7.5, -3.5, 0.25], [1.0, -0.5, -0.75],
     [8.5, 3.75, 0.375], [-2.875, -2.0, -0.125], [5.0, 1.875, 0.625], [-6.0, -2.5, -0.375], [4.25, 2.75, 0.875], [-0.25, 0.5, -0.625], [-3.25, -0.875, 1.125],
     [7.125, 4.0, 0.0625], [12.0, -30.0, 14.0], [11.0, -29.0, -17.0], [0.0, 0.25, 25.0], [60.0, 27.0, 0.5]]
SUB = {2: [[[0.6], [0.8]], [0.25, -1.5]], 3: [[[2 / 3, -2 / 3], [2 / 3, 1 / 3], [1 / 3, 2 / 3]], [0.25, -1.5, 3.0]]}


def third(a, b):
    from fractions import Fraction

    return Fraction(a, b)


def fixed(ctx, p):
    """a fitted model with an exactly orthonormal basis"""
    from robpy.pca.base import RobustPCA

    class Fixed(RobustPCA):
        def fit(self, X):
            return self

    m = Fixed(n_components=p - 1)
    q = third
    C = [[q(3, 5)], [q(4, 5)]] if p == 2 else [[q(2, 3), q(-2, 3)], [q(2, 3), q(1, 3)], [q(1, 3), q(2, 3)]]
    m.components_ = ctx.array([[ctx.const(v) for v in r] for r in C])
    m.location_ = ctx.array([ctx.const(v) for v in SUB[p][1]])
    m.explained_variance_ = ctx.array([ctx.const(v) for v in (4.0, 0.25)[:p - 1]])
    return m, [[ctx.const(v) for v in r] for r in C], [ctx.const(v) for v in SUB[p][1]]


def projections(ctx, n, p, frame=False):
    m, C, mu = fixed(ctx, p)
    rows = [[ctx.real(f"x{i}{j}", lo=-1000, hi=1000) for j in range(p)] for i in range(n)]
    A = ctx.array(rows)
    T = np.asarray(m.transform(A))
    P = np.asarray(m.project(A))
    ctx.check(T.shape == (n, p - 1) and P.shape == (n, p), "shapes of scores and projections")
    for i in range(n):
        s = [sum_([(rows[i][j] - mu[j]) * C[j][a] for j in range(p)]) for a in range(p - 1)]
        ctx.check(ctx.all([ctx.eq(T[i, a], s[a]) for a in range(p - 1)]), "scores are the centered data times the components")
        v = [sum_([s[a] * C[j][a] for a in range(p - 1)]) for j in range(p)]
        ctx.check(ctx.all([ctx.eq(P[i, j], v[j]) for j in range(p)]), "the projection is the orthogonal projection on the centered subspace")
        r = [rows[i][j] - mu[j] - v[j] for j in range(p)]
        ctx.check(ctx.all([ctx.eq(sum_([r[j] * C[j][a] for j in range(p)]), 0) for a in range(p - 1)]), "the residual is orthogonal to the components")
    ctx.check(ctx.all([ctx.eq(A[i, j], rows[i][j]) for i in range(n) for j in range(p)]), "input unchanged")


def cutoff_(t):
    """own cutoff of the orthogonal distances (numbers): univariate MCD of their 2/3 powers"""
    from robpy.univariate import UnivariateMCD

    m = UnivariateMCD().fit(np.array([v ** (2 / 3) for v in t]))
    return float(m.location + m.scale * stats.norm.ppf(0.975)) ** 1.5


def omap(ctx, p, n, move, frame=False):
    """one observation moves along the subspace (its orthogonal distance stays) or off it in exact steps"""
    no_plot(ctx)
    m, C, mu = fixed(ctx, p)
    N = [ctx.const(third(-4, 5)), ctx.const(third(3, 5))] if p == 2 else [ctx.const(third(1, 3)), ctx.const(third(-2, 3)), ctx.const(third(2, 3))]
    t = ctx.real("t", lo=-1000, hi=1000)
    S, od = [], []
    for i in range(n):
        s = [ctx.const(Z[i][a]) for a in range(p - 1)]
        if i == move:
            s[0] = t
        S.append(s)
        od.append(0.25 * (i % 5) ** 2 + 0.125 * (i % 3) + (30.0 if i == n - 1 else 0))
    rows = [[mu[j] + sum_([S[i][a] * C[j][a] for a in range(p - 1)]) + od[i] * N[j] for j in range(p)] for i in range(n)]
    A = ctx.frame(rows, [f"v{j}" for j in range(p)]) if frame else ctx.array(rows)
    sd, o, sc, oc = m.plot_outlier_map(A, return_distances=True)
    sd, o = list(np.asarray(sd)), list(np.asarray(o))
    ev = (4.0, 0.25)
    ctx.check(len(sd) == len(o) == n, "one point per observation")
    for i in range(n):
        q = sum_([S[i][a] * S[i][a] / ev[a] for a in range(p - 1)])
        ctx.check(ctx.all([ctx.ge(sd[i], 0), ctx.eq(sd[i] * sd[i], q)]), "score distance: Mahalanobis distance within the subspace")
        ctx.check(ctx.eq(o[i], od[i]), "orthogonal distance to the subspace")
    ctx.check(ctx.eq(sc, math.sqrt(stats.chi2.ppf(0.975, p - 1)), 1e-9), "score cutoff: chi-square quantile with one degree of freedom per component")
    ctx.check(ctx.eq(oc, cutoff_(od), 1e-7), "cutoff of the orthogonal distances: Wilson-Hilferty with the univariate MCD")


def data(ctx, n, p, how, last=(), jitter=False):
    """sample times a scale plus a shift; returns rows, numbers, scale, shift"""
    k = ctx.real("k", lo=1e-3, hi=1e3) if "scale" in how else ctx.const(1)
    if "shift" in how:
        t = ctx.real("b", lo=-1000, hi=1000)
        b = [t * v for v in (1, -0.5, 0.25, 2)[:p]]
    else:
        b = [ctx.const(0)] * p
    base = []
    for i in range(n):
        z = Z[i - n if i >= n - len(last) else i] if last and i >= n - len(last) else Z[i]
        r = list(z) if p <= 3 else list(z) + [0.25 * ((7 * i) % 11) - 1.25]
        if jitter:
            r = [v + ((37 * i + 11 * j * j + 5 * i * i * (j + 1)) % 61 - 30) / 128 for j, v in enumerate(r)]
        base.append(r[:p])
    rows = [[ctx.const(v) * k + b[j] for j, v in enumerate(r)] for r in base]
    return rows, np.array(base), k, b


def basis(ctx, m, p, k):
    """the components as a list of rows; checks that they are orthonormal"""
    C = np.asarray(m.components_)
    ctx.check(C.shape == (p, k), "one component per column")
    C = [list(r) for r in C]
    ctx.check(ctx.all([ctx.eq(sum_([C[j][a] * C[j][c] for j in range(p)]), 1 if a == c else 0, 1e-7) for a in range(k) for c in range(a, k)]),
              "orthonormal components")
    return C


def locantore(ctx, n, p, how, ncomp, kmin=0.8, dup=0, outl=0):
    from robpy.pca import PCALocantore

    rows, base, k, b = data(ctx, n, p, how, last=range(outl))
    if dup:
        for i in range(dup):
            base[i] = base[0]
            rows[i] = list(rows[0])
    A = ctx.array(rows)
    m = PCALocantore(n_components=ncomp, k_min_var_explained=kmin).fit(A)
    mu = list(np.asarray(m.location_).reshape(-1))
    optimal(ctx, mu, rows, k)
    # full decomposition of the spatial sign covariance around this centre
    V = []
    for r in rows:
        v = [r[j] - mu[j] for j in range(p)]
        q = sum_([a * a for a in v])
        if not ctx.if_(q, "==", 0):
            d = ctx.sqrt(q)
            V.append([a / d for a in v])
    S = [[sum_([v[a] * v[c] for v in V]) / n for c in range(p)] for a in range(p)]
    q = int(m.n_components)
    C = basis(ctx, m, p, q)
    SC = [[sum_([S[j][c] * C[c][a] for c in range(p)]) for a in range(q)] for j in range(p)]
    lam = [sum_([C[j][a] * SC[j][a] for j in range(p)]) for a in range(q)]
    ctx.check(ctx.all([ctx.eq(SC[j][a], lam[a] * C[j][a], 1e-6) for j in range(p) for a in range(q)]), "components: eigenvectors of the spatial sign covariance")
    tr = sum_([S[j][j] for j in range(p)])
    ctx.check(ctx.all([ctx.ge(lam[a], lam[a + 1], 1e-7) for a in range(q - 1)]), "components ordered by eigenvalue")
    if q == 1 and p == 2:
        ctx.check(ctx.ge(lam[0] * 2, tr, 1e-7), "the leading eigenvector")
    elif q < p:
        # what is left of the trace cannot hide a larger eigenvalue than the last one kept: deflate
        R = [[S[j][c] - sum_([lam[a] * C[j][a] * C[c][a] for a in range(q)]) for c in range(p)] for j in range(p)]
        w = [1.0, -0.5, 0.25]
        for _ in range(12):
            w = [sum_([R[j][c] * w[c] for c in range(p)]) for j in range(p)]
        num = sum_([w[j] * sum_([R[j][c] * w[c] for c in range(p)]) for j in range(p)])
        ctx.check(ctx.le(num, lam[q - 1] * sum_([a * a for a in w]), 1e-7), "the leading eigenvectors")
    ev = list(np.asarray(m.explained_variance_).reshape(-1))
    ctx.check(len(ev) == q, "one variance per component")
    for a in range(q):
        sc = [sum_([(r[j] - mu[j]) * C[j][a] for j in range(p)]) for r in rows]
        s = mad_(ctx, sc) / stats.norm.ppf(0.75)
        ctx.check(ctx.eq(ev[a], s * s, 1e-7), "explained variance: squared MAD of the scores")
    rr = list(np.asarray(m.explained_variance_ratio_).reshape(-1))
    ctx.check(len(rr) == q, "one share per component")
    if q == p and ctx.if_(sum_(ev), ">", 0):
        ctx.check(ctx.all([ctx.eq(rr[a] * sum_(ev), sum_(ev[:a + 1]), 1e-7) for a in range(q)]), "cumulative share of the explained variance")
    if ncomp is not None:
        ctx.check(q == ncomp, "requested number of components")
    elif p == 2:
        # the share of the first component decides
        ctx.check(ctx.ge(rr[-1], kmin, 1e-9), "enough components for the requested share")
        if q == 2:
            ctx.check(ctx.lt(rr[0], kmin), "no more components than needed")
    ctx.check(ctx.all([ctx.eq(A[i, j], rows[i][j]) for i in range(n) for j in range(p)]), "input unchanged")


def robpca_(X, idx, alpha, ncomp, kmin, mcd, seed):
    """own ROBPCA for numbers, given the pairs of observations that define the directions"""
    from robpy.covariance import FastMCD

    n, p = X.shape
    out = np.zeros(n)
    for i, j in idx:
        pr = X @ (X[i] - X[j])
        dev = np.abs(pr - np.median(pr))
        out = np.maximum(out, dev / np.median(dev))
    h = min(n, max(int(alpha * n), (n + (10 if ncomp is None else ncomp) + 1) // 2))
    H = np.argsort(out)[:h]
    gap = np.sort(out)
    if h < n and gap[h] - gap[h - 1] < 1e-9:
        return None
    w, V = np.linalg.eigh(np.cov(X[H].T))
    w, V = w[::-1], V[:, ::-1]
    share = np.cumsum(w) / w.sum()
    k = ncomp if ncomp is not None else int(np.argmax(share >= kmin)) + 1
    ev, ratio = w[:k], share[:k]
    Y = X - X[H].mean(0)
    od = np.linalg.norm(Y - Y @ V[:, :k] @ V[:, :k].T, axis=1)
    cut = cutoff_(od)
    keep = od <= cut
    if np.min(np.abs(od - cut)) < 1e-9 and not np.all(od == 0):
        return None
    mu = X[keep].mean(0)
    w, V = np.linalg.eigh(np.cov(X[keep].T))
    V = V[:, ::-1][:, :k]
    if mcd and k > 1:
        f = FastMCD(random_seed=seed).fit((X - mu) @ V)
        mu = mu + V @ np.asarray(f.location_, float)
        w, U = np.linalg.eigh(np.asarray(f.covariance, float))
        V = V @ U[:, ::-1]
    return mu, V, ev, ratio


def robpca(ctx, n, p, how, ncomp, kmin=0.8, alpha=0.75, mcd=False, seed=1, outl=0, flat=False, jitter=False):
    from robpy.pca import ROBPCA

    rows, base, k, b = data(ctx, n, p, how, last=range(outl), jitter=jitter)
    if flat:  # exactly on a line but for the last observations
        for i in range(n):
            base[i] = [base[i][0]] + [0.0] * (p - 1)
            rows[i] = [rows[i][0]] + [b[j] for j in range(1, p)]
    A = ctx.array(rows)
    log, undo = record(ctx)
    try:
        m = ROBPCA(n_components=ncomp, k_min_var_explained=kmin, alpha=alpha, final_MCD_step=mcd, random_seed=seed, verbosity=50).fit(A)
    finally:
        undo()
    idx = [s.tolist() for s in log if s.size == 2][:250]
    ctx.check(len({tuple(sorted(s)) for s in idx}) > min(60, n * (n - 1) // 4), "many different directions")
    if flat:
        mu = list(np.asarray(m.location_).reshape(-1))
        C = basis(ctx, m, p, 1)
        ctx.check(ctx.all([ctx.eq(C[j][0], 0, 1e-9) for j in range(1, p)]), "the line is found")
        ctx.check(ctx.all([ctx.eq(mu[j], b[j], 1e-7) for j in range(1, p)]), "the centre lies on the line")
        ctx.check(len(np.asarray(m.explained_variance_)) == 1, "one variance per component")
        return
    e = robpca_(base, idx, alpha, ncomp, kmin, mcd, seed)
    if e is None:
        ctx.stop()
    mu0, V, ev0, ratio = e
    q = V.shape[1]
    ctx.check(int(m.n_components) == q, "number of components")
    C = basis(ctx, m, p, q)
    mu = list(np.asarray(m.location_).reshape(-1))
    ctx.check(ctx.all([ctx.eq((mu[j] - b[j]) / k, mu0[j], 1e-6) for j in range(p)]), "location: mean of the observations close to the subspace (or their MCD)")
    for a in range(q):
        c = sum_([C[j][a] * float(V[j][a]) for j in range(p)])
        ctx.check(ctx.eq(c * c, 1, 1e-6), "components: eigenvectors of the robust covariance, in order")
    ev = list(np.asarray(m.explained_variance_).reshape(-1))
    ctx.check(len(ev) == q, "one variance per component")
    ctx.check(ctx.all([ctx.eq(ev[a] / (k * k), ev0[a], 1e-6) for a in range(q)]), "explained variances of the h least outlying observations")
    rr = list(np.asarray(m.explained_variance_ratio).reshape(-1))
    ctx.check(len(rr) == q and ctx.all([ctx.eq(rr[a], ratio[a], 1e-6) for a in range(q)]), "cumulative share of the variance of the h least outlying observations")
    ctx.check(ctx.all([ctx.eq(A[i, j], rows[i][j]) for i in range(n) for j in range(p)]), "input unchanged")


def bad_alpha(ctx, n, ncomp):
    from robpy.pca import ROBPCA

    rows, base, k, b = data(ctx, n, 3, "", jitter=True)
    a = ctx.real("alpha", lo=-2, hi=4)
    inside = ctx.if_(a, ">=", 0.5) and ctx.if_(a, "<=", 1)
    if inside:
        ctx.stop()
    try:
        ROBPCA(n_components=ncomp, alpha=a, final_MCD_step=False, verbosity=50).fit(ctx.array(rows))
    except ValueError:
        ctx.check(True, "an inadmissible alpha is rejected with ValueError")
        return
    ctx.check(False, "an inadmissible alpha is rejected with ValueError")


def scenarios(tier):
    S = Scenario
    K = dict(prec=128, path_timeout=60)
    out = [
        S("projections, p=2", projections, dict(n=2, p=2)), S("projections, p=3", projections, dict(n=2, p=3)),
        S("map, p=2", omap, dict(p=2, n=9, move=3)), S("map, p=3", omap, dict(p=3, n=12, move=5, frame=True)),
        S("locantore, shift", locantore, dict(n=9, p=2, how="shift", ncomp=2), **K),
        S("locantore, scale", locantore, dict(n=10, p=2, how="scale", ncomp=1), **K),
        S("locantore, share", locantore, dict(n=9, p=2, how="scale", ncomp=None, kmin=0.8), **K),
        S("locantore, larger share", locantore, dict(n=9, p=2, how="scale", ncomp=None, kmin=0.999), **K),
        S("locantore, duplicates", locantore, dict(n=9, p=2, how="scale", ncomp=2, dup=6), **K),
        S("locantore, p=3", locantore, dict(n=9, p=3, how="scale", ncomp=2, outl=1), **K),
        S("locantore, p=3, all", locantore, dict(n=9, p=3, how="scale", ncomp=3), **K),
    ]
    out += [S(f"robpca, alpha outside [0.5, 1], {q} components", bad_alpha, dict(n=12, ncomp=q), **K) for q in (None, 2)]
    for mcd in (False, True):
        w = "MCD" if mcd else "no MCD"
        out += [S(f"robpca, {w}, shift", robpca, dict(n=14, p=3, how="shift", ncomp=2, mcd=mcd)),
                S(f"robpca, {w}, scale", robpca, dict(n=16, p=3, how="shift scale", ncomp=2, mcd=mcd, outl=3, seed=5), **K),
                S(f"robpca, {w}, share", robpca, dict(n=20, p=3, how="shift", ncomp=None, kmin=0.9, mcd=mcd)),
                S(f"robpca, {w}, small alpha", robpca, dict(n=14, p=3, how="shift", ncomp=None, kmin=0.95, mcd=mcd, alpha=0.5, seed=2, outl=2)),
                S(f"robpca, {w}, small alpha, odd n", robpca, dict(n=17, p=3, how="shift", ncomp=None, kmin=0.6, mcd=mcd, alpha=0.5, seed=3, outl=2, jitter=True)),
                S(f"robpca, {w}, given number, small alpha, odd n", robpca, dict(n=17, p=4, how="shift", ncomp=2, mcd=mcd, alpha=0.5, seed=4, outl=2), path_timeout=60),
                S(f"robpca, {w}, p=4", robpca, dict(n=18, p=4, how="shift", ncomp=3, mcd=mcd, alpha=0.6)),
                S(f"robpca, {w}, one component", robpca, dict(n=15, p=2, how="shift", ncomp=1, mcd=mcd, alpha=0.5)),
                S(f"robpca, {w}, more components than the rank", robpca, dict(n=14, p=3, how="shift", ncomp=2, mcd=mcd, flat=True)),
                S(f"robpca, {w}, line", robpca, dict(n=14, p=2, how="shift", ncomp=1, mcd=mcd, flat=True))]
    return out
