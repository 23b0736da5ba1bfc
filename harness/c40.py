"""CellMCD as a whole: standardization, initial estimate, C-steps and the way back against an own implementation; units and gross cells."""
import numpy as np
from scipy.stats import chi2

from symrob.runner import Scenario
from harness.c14 import sample
from harness.c41 import est_, finish, reference

FUNCTIONS = ["covariance.cellmcd.CellMCD.calculate_covariance", "covariance.initial_ddcw.InitialDDCW.calculate_covariance",
             "covariance.cellmcd.CellMCD._C_steps_until_convergence", "covariance.base.RobustCovariance.fit"]
BOUNDS = ("n=16..24, p=2..3, concrete samples with outlying and missing cells: every shift in [-1000, 1000] of two columns and rescaling in [10^-3, 10^3] of one, "
          "one outlying cell of any size in [50, 10^6] on either side; several alpha, quantiles, tolerances and limits of steps; every free bound of the zero-scale test")
STUBS = ["pandas frames of symbolic cells as in C32", "tanh, log, chi-square distribution function: uninterpreted monotone functions", "eigenvectors of constant matrices: LAPACK"]
BUDGET = 100
NAN = float("nan")


def steps(X, m, S, h, quantile, crit, limit, floor):
    """own C-steps on numbers; margin: distance of the decisions from their cutoffs"""
    n, p = X.shape
    nan = np.isnan(X)
    q = chi2.ppf(quantile, 1) + np.log(2 * np.pi) - np.log(np.diag(np.linalg.inv(S)))
    edge = [1.0]

    def cond(i, w, j, m, S):
        o = [a for a in range(p) if w[a] and a != j]
        if not o:
            return m[j], S[j, j]
        b = np.linalg.solve(S[np.ix_(o, o)], S[o, j])
        return m[j] + b @ (X[i, o] - m[o]), S[j, j] - b @ S[o, j]

    def objective(W, m, S):
        t = 0.0
        for i in range(n):
            o = np.flatnonzero(W[i])
            if len(o):
                M = S[np.ix_(o, o)]
                r = X[i, o] - m[o]
                t += np.log(np.linalg.det(M)) + len(o) * np.log(2 * np.pi) + r @ np.linalg.solve(M, r)
        return t + np.sum(q * (W == 0).sum(0))

    W = (~nan).astype(int)
    f = objective(W, m, S)
    for _ in range(limit):
        V = W.copy()
        for j in sorted(range(p), key=lambda j: (W[:, j].sum(), j)):
            d = np.full(n, np.inf)
            for i in range(n):
                if not nan[i, j]:
                    c, v = cond(i, V[i], j, m, S)
                    d[i] = (X[i, j] - c) ** 2 / v + np.log(v) + np.log(2 * np.pi)
            edge.append(np.min(np.abs(d - q[j])))
            good = d < q[j]
            if good.sum() < h:
                o = np.argsort(d, kind="stable")
                edge.append(d[o[h]] - d[o[h - 1]])
                good = np.zeros(n, bool)
                good[o[:h]] = True
            V[:, j] = good
        Y, B = np.array(X), np.zeros((p, p))
        for i in range(n):
            o, u = np.flatnonzero(V[i]), np.flatnonzero(V[i] == 0)
            if len(u):
                if len(o):
                    A = np.linalg.solve(S[np.ix_(o, o)], S[np.ix_(o, u)])
                    Y[i, u] = m[u] + A.T @ (X[i, o] - m[o])
                    B[np.ix_(u, u)] += S[np.ix_(u, u)] - A.T @ S[np.ix_(o, u)]
                else:
                    Y[i], B = m, B + S
        m1 = Y.mean(0)
        S1 = (np.cov(Y, rowvar=False, bias=True) * n + B) / n
        diff = np.max(np.abs(S1 - S))
        L, U = np.linalg.eigh(S1)
        S1 = U @ np.diag(np.maximum(L, floor)) @ U.T
        g = objective(V, m1, S1)
        edge += [abs(g - f), abs(diff - crit)]
        if g > f:
            break
        W, m, S, f = V, m1, S1, g
        if diff <= crit:
            break
    return W, m, S, min(edge), cond


def whole(X, alpha, quantile, crit, limit, floor):
    n, p = X.shape
    a = max(alpha, (n // 2 + 1) / n)
    ms = np.array([est_(X[~np.isnan(X[:, j]), j]) for j in range(p)])
    Z = (X - ms[:, 0]) / ms[:, 1]
    ref = reference(Z, a, floor)
    S = finish(ref, p, floor)
    assert np.min(np.abs(np.abs(Z[~np.isnan(Z)]) - 3)) > 1e-7
    T = np.where(np.abs(Z) > 3, NAN, Z)
    W, m, S, edge, cond = steps(T, np.array(ref[0]), S, round(a * n), quantile, crit, limit, floor)
    assert edge > 1e-8, edge
    P, V = np.zeros((n, p)), np.zeros((n, p))
    for i in range(n):
        for j in range(p):
            P[i, j], V[i, j] = cond(i, W[i], j, m, S)
    R = (Z - P) / np.sqrt(V)
    r = np.array([est_(R[~np.isnan(R[:, j]), j])[1] for j in range(p)])
    s = ms[:, 1]
    return W, ms[:, 0] + m * s, S * np.outer(s, s), ms[:, 0] + P * s, np.sqrt(V) * s, R / r


def fit(ctx, n, p, seed, holes=(), cell=None, rng=None, how="", **k):
    from robpy.covariance import CellMCD

    B = sample(n, p, seed)
    for i, j, v in holes:
        B[i, j] = v
    far, N = None, B.copy()
    if cell:
        far = ctx.real("x", lo=rng[0], hi=rng[1])
        N[cell] = rng[0]
    b = [ctx.real(f"b{j}", lo=-1000, hi=1000) if "shift" in how and j < 2 else ctx.const(0.5 * j) for j in range(p)]
    s = [ctx.real("k", lo=1e-3, hi=1e3) if "scale" in how and j == 0 else ctx.const(4.0 ** j) for j in range(p)]
    X = [[far * s[j] + b[j] if cell == (i, j) else ctx.const(float(B[i, j])) * s[j] + b[j] if np.isfinite(B[i, j]) else B[i, j] for j in range(p)] for i in range(n)]
    A = ctx.array(X)
    e = CellMCD(**k).fit(A)
    W, m, S, P, D, R = whole(N, k.get("alpha", 0.75), k.get("quantile", 0.99), k.get("crit", 1e-4), k.get("max_c_steps", 100), k.get("min_eigenvalue", 1e-4))
    ctx.check(bool(np.all(np.asarray(e.W, float) == W)), "flagged cells")
    ctx.check(ctx.all([ctx.eq((e.location_[j] - b[j]) / s[j], m[j], 1e-6) for j in range(p)]), "location")
    ctx.check(ctx.all([ctx.eq(e.covariance_[i, j] / (s[i] * s[j]), S[i, j], 1e-6) for i in range(p) for j in range(p)]), "scatter")
    ctx.check(ctx.all([ctx.eq((e.predictions[i, j] - b[j]) / s[j], P[i, j], 1e-5) & ctx.eq(e.conditional_stds[i, j] / s[j], D[i, j], 1e-5)
                       for i in range(n) for j in range(p)]), "predictions and their standard deviations")
    ctx.check(ctx.all([ctx.is_nan(e.residuals[i, j]) if np.isnan(B[i, j]) else ctx.eq(e.residuals[i, j], R[i, j], 1e-5)
                       for i in range(n) for j in range(p) if cell != (i, j)]), "standardized residuals")
    ctx.check(ctx.all([ctx.eq(e.X_imputed[i, j], X[i][j], 0) if W[i, j] else ctx.eq((e.X_imputed[i, j] - b[j]) / s[j], P[i, j], 1e-5)
                       for i in range(n) for j in range(p)]), "imputed data")
    if cell:
        ctx.check(W[cell] == 0 and ctx.if_(e.residuals[cell] * (1 if rng[0] > 0 else -1), ">", 3), "the gross cell is flagged and has a large residual")
    ctx.check(ctx.all([ctx.eq(A[i, j], X[i][j], 0) for i in range(n) for j in range(p) if np.isfinite(B[i, j])]), "data unchanged")


def scenarios(tier):
    S = Scenario
    o = dict(prec=128, path_timeout=80)
    out = [S("shift", fit, dict(n=20, p=2, seed=1, holes=[(3, 0, 9.0), (5, 1, NAN)], how="shift"), **o),
           S("scale", fit, dict(n=20, p=2, seed=2, holes=[(3, 0, 9.0), (5, 1, -12.0)], how="shift scale"), **o),
           S("scale p=3", fit, dict(n=18, p=3, seed=3, holes=[(2, 0, 7.0), (2, 1, -8.0), (5, 1, NAN), (6, 2, 11.0)], how="scale", alpha=0.7), **o),
           S("far cell", fit, dict(n=20, p=2, seed=4, cell=(3, 0), rng=(50, 1e6)), **o),
           S("far cell below p=3", fit, dict(n=18, p=3, seed=5, holes=[(4, 1, NAN), (8, 0, 13.0)], cell=(6, 1), rng=(-1e6, -50)), **o),
           S("far cell quantile", fit, dict(n=20, p=2, seed=6, holes=[(7, 0, -8.0), (11, 1, 14.0)], cell=(15, 0), rng=(50, 1e6), alpha=0.6, quantile=0.9), **o),
           S("empty row", fit, dict(n=18, p=2, seed=7, holes=[(4, 0, 30.0), (4, 1, -30.0), (6, 0, NAN), (9, 1, 20.0)], how="shift scale", crit=0.05), **o),
           S("few steps", fit, dict(n=16, p=3, seed=8, holes=[(2, 1, 9.0), (6, 1, NAN), (9, 2, -10.0)], how="scale", max_c_steps=2, alpha=0.8), **o),
           S("collinear", fit, dict(n=20, p=2, seed=9, holes=[(i, 1, 0.5 * float(v) + 0.002 * (i % 5)) for i, v in enumerate(sample(20, 2, 9)[:, 0])] + [(3, 1, 25.0)], how="scale",
                                    min_eigenvalue=0.01, crit=0.05), **o)]
    return out
