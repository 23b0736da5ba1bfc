"""CellMCD C-steps: which cells are flagged, the update of location and scatter, and the descent of the objective."""
import itertools
import math

import numpy as np

from symrob.runner import Scenario
from harness.c14 import sample
from harness.c19 import conditional
from harness.c20 import nll
from harness.common import adj_, det_, mean_, sum_

FUNCTIONS = ["covariance.cellmcd.CellMCD._update_W", "covariance.cellmcd.CellMCD._calculate_delta", "covariance.cellmcd.CellMCD._C_step",
             "covariance.cellmcd.CellMCD._C_steps_until_convergence", "covariance.cellmcd.CellMCD._check_data", "covariance.utils.cellmcd_utils.objective_function"]
BOUNDS = ("flag updates: n=4..7, p=1..3, one or two cells free in [-1000, 1000], any starting pattern of flags and missing cells, free cutoffs; C-steps: the same with "
          "concrete start; iterations: n=8..12, p=2, one step for a cell in [-1, 1], three steps for a far cell in [20, 1000], four and six steps for every tolerance in [1e-6, 4], up to 40 steps of concrete data under every shift, with truncated eigenvalues and uphill steps; checks of the data: one free cell, concrete others")
STUBS = ["log: uninterpreted increasing function; equal arguments give equal values"]
BUDGET = 60
S2 = [[1.5, 0.75, -0.25], [0.75, 2.0, 0.5], [-0.25, 0.5, 1.0]]
MU = [0.25, -0.5, 0.125]


def cells(ctx, n, p, seed, free, missing):
    B = sample(n, p, seed)
    X = [[ctx.const(float(v)) for v in r] for r in B]
    for k, (i, j) in enumerate(free):
        X[i][j] = ctx.real(f"x{k}", lo=-1000, hi=1000)
    for i, j in missing:
        X[i][j] = ctx.const(float("nan"))
    return X


def inv_(ctx, S):
    D, A = det_(S), adj_(S)
    return [[A[a][b] / D for b in range(len(S))] for a in range(len(S))]


def flags_(ctx, X, W, mu, S, q, h, missing):
    """own rule, column by column (fewest kept cells first); a tie with the cutoff or at the h-th place ends the path"""
    n, p = len(X), len(mu)
    W = [list(r) for r in W]
    for j in sorted(range(p), key=lambda j: (sum(r[j] for r in W), j)):
        delta = []
        for i in range(n):
            if (i, j) in missing:
                delta.append(None)
                continue
            m, v = conditional(X[i], W[i], j, mu, S)
            delta.append((X[i][j] - m) * (X[i][j] - m) / v + ctx.log(v) + math.log(2 * math.pi))
        good = []
        for i in range(n):
            if delta[i] is None:
                continue
            if ctx.if_(abs_(ctx, delta[i] - q[j]), "<=", 1e-9):
                ctx.stop()
            if ctx.if_(delta[i], "<", q[j]):
                good.append(i)
        if len(good) < h:
            rest = [i for i in range(n) if delta[i] is not None]
            order = []
            for i in rest:
                k = len(order)
                while k > 0 and ctx.if_(delta[order[k - 1]], ">", delta[i]):
                    k -= 1
                order.insert(k, i)
            good = order[:h]
            if len(order) > h and ctx.if_(delta[order[h]] - delta[order[h - 1]], "<=", 1e-9):
                ctx.stop()
        for i in range(n):
            W[i][j] = 1 if i in good else 0
    return W


def abs_(ctx, v):
    return -v if ctx.if_(v, "<", 0) else v


def em_(ctx, X, W, mu, S):
    """own update: mean and covariance of the completed data plus the mean conditional covariance of the flagged cells"""
    n, p = len(X), len(mu)
    Y, B = [], [[0.0] * p for _ in range(p)]
    for i in range(n):
        o = [j for j in range(p) if W[i][j]]
        f = [j for j in range(p) if not W[i][j]]
        y = [X[i][j] if W[i][j] else None for j in range(p)]
        if f:
            if o:
                M = [[S[a][b] for b in o] for a in o]
                D, A = det_(M), adj_(M)
            for a in f:
                y[a] = mu[a] + (sum_([S[a][o[k]] * A[k][l] * (X[i][o[l]] - mu[o[l]]) for k in range(len(o)) for l in range(len(o))]) / D if o else 0)
                for b in f:
                    c = S[a][b]
                    if o:
                        c = c - sum_([S[a][o[k]] * A[k][l] * S[o[l]][b] for k in range(len(o)) for l in range(len(o))]) / D
                    B[a][b] = B[a][b] + c
        Y.append(y)
    m = [mean_([y[j] for y in Y]) for j in range(p)]
    C = [[(sum_([(y[a] - m[a]) * (y[b] - m[b]) for y in Y]) + B[a][b]) / n for b in range(p)] for a in range(p)]
    return m, C


def start(ctx, n, p, miss, W):
    W = [list(r) for r in W] if W else [[1] * p for _ in range(n)]
    for i, j in miss:
        W[i][j] = 0
    return W


def update(ctx, n, p, seed, free, missing=(), W=None, h=None, q=None, step=False):
    from robpy.covariance import CellMCD

    X = cells(ctx, n, p, seed, free, missing)
    S = [[ctx.const(S2[a][b]) for b in range(p)] for a in range(p)]
    mu = [ctx.const(v) for v in MU[:p]]
    Si = inv_(ctx, S)
    W0 = start(ctx, n, p, missing, W)
    h = h or (n + 1) // 2 + 1
    q = [ctx.real(f"q{j}", lo=-5, hi=60) if q == "free" and j == 0 else ctx.const(6.6349 - math.log(1.0 + 0.25 * j) + 1.8379 if q in (None, "free") else q) for j in range(p)]
    args = (ctx.array(X), np.array(W0, dtype=float), ctx.array(mu), ctx.array(S), ctx.array(Si), ctx.array(q), h)
    e = CellMCD()
    new = flags_(ctx, X, W0, mu, S, q, h, set(missing))
    if step:
        W1, m, C = e._C_step(*args)
        M, V = em_(ctx, X, new, mu, S)
        ctx.check(ctx.all([ctx.eq(m[j], M[j], 1e-6) for j in range(p)]), "new location: mean of the completed data")
        sc = 1 + max(1000 if free else 0, 0)
        ctx.check(ctx.all([ctx.eq(C[a, b] / sc, V[a][b] / sc, 1e-6) for a in range(p) for b in range(p)]),
                  "new scatter: covariance of the completed data plus the mean conditional covariance")
    else:
        W1 = e._update_W(*args)
    ctx.check(bool(np.all(np.asarray(W1, dtype=float) == np.array(new))), "kept cells: those within the cutoff, or the h closest ones")
    ctx.check(bool(np.all(np.asarray(args[1], dtype=float) == np.array(W0))), "the previous flags are unchanged")
    ctx.check(ctx.all([ctx.eq(args[0][i, j], X[i][j], 0) for i in range(n) for j in range(p) if (i, j) not in missing]), "data unchanged")


def iterate(ctx, n, seed, free, steps, missing=(), lo=-1000, hi=1000, crit=1e-4, alpha=0.75, quantile=0.99):
    """objective of the returned solution against every step of the own iteration"""
    from robpy.covariance import CellMCD
    from scipy.stats import chi2

    p = 2
    X = cells(ctx, n, p, seed, (), missing)
    for k, (i, j) in enumerate(free):
        X[i][j] = ctx.real(f"x{k}", lo=lo, hi=hi)
    S = [[ctx.const(v) for v in r] for r in ([1.25, 0.5], [0.5, 1.0])]
    mu = [ctx.const(0.125), ctx.const(-0.25)]
    crit = ctx.real("crit", lo=1e-6, hi=4) if crit == "free" else crit
    e = CellMCD(max_c_steps=steps, crit=crit, alpha=alpha, quantile=quantile)
    e.alpha_ = alpha
    h = round(alpha * n)
    Si = inv_(ctx, S)
    q = [float(chi2.ppf(quantile, 1)) + math.log(2 * math.pi) - ctx.log(Si[j][j]) for j in range(p)]
    W = start(ctx, n, p, missing, None)
    loc, cov, inv, flags = e._C_steps_until_convergence(ctx.array(X), ctx.array(mu), ctx.array(S), ctx.array(Si))
    obj = lambda W, m, C: nll(ctx, X, W, m, C) + sum_([q[j] for j in range(p) for i in range(n) if not W[i][j]], 0.0)
    cur = (W, mu, S)
    f = obj(*cur)
    for t in range(steps):
        W1 = flags_(ctx, X, cur[0], cur[1], cur[2], q, h, set(missing))
        m1, C1 = em_(ctx, X, W1, cur[1], cur[2])
        tr, dt = C1[0][0] + C1[1][1], det_(C1)
        if not ctx.if_(dt - tr * 1e-4 + 1e-8, ">", 1e-7):  # smallest eigenvalue above the bound: no truncation
            ctx.stop()
        f1 = obj(W1, m1, C1)
        if ctx.if_(abs_(ctx, f1 - f), "<=", 1e-2):
            ctx.stop()
        if ctx.if_(f1, ">", f):
            break
        diff = [abs_(ctx, C1[a][b] - cur[2][a][b]) for a in range(p) for b in range(a + 1)]
        cur, f = (W1, m1, C1), f1
        if any(ctx.if_(abs_(ctx, d - crit), "<=", 1e-9) for d in diff):
            ctx.stop()
        if all(ctx.if_(d, "<", crit) for d in diff):
            break
    ctx.check(bool(np.all(np.asarray(flags, dtype=float) == np.array(cur[0]))), "flags of the last accepted step")
    ctx.check(ctx.all([ctx.eq(loc[j], cur[1][j], 1e-6) for j in range(p)]), "location of the last accepted step")
    sc = max(abs(lo), abs(hi), 1)
    ctx.check(ctx.all([ctx.eq(cov[a, b] / sc, cur[2][a][b] / sc, 1e-6) for a in range(p) for b in range(p)]), "scatter of the last accepted step")
    I = [[sum_([inv[a, c] * cov[c, b] for c in range(p)]) for b in range(p)] for a in range(p)]
    ctx.check(ctx.all([ctx.eq(I[a][b], float(a == b), 1e-6) for a in range(p) for b in range(p)]), "the returned inverse is the inverse of the scatter")
    ctx.check(all(sum(r[j] for r in cur[0]) >= h for j in range(p)), "at least h cells of every column are kept")


def uphill(ctx, n, p, seed, scale, rho, alpha, quantile, floor, missing=(), limit=20, crit=1e-4):
    """whole iterations on concrete data for every shift, where truncated eigenvalues make steps go uphill"""
    from robpy.covariance import CellMCD
    from harness.c40 import steps

    B = sample(n, p, seed) * scale
    for i, j in missing:
        B[i, j] = np.nan
    S = np.eye(p) + rho * (np.ones((p, p)) - np.eye(p))
    W, m, C, edge, _ = steps(B, np.zeros(p), S, round(alpha * n), quantile, crit, limit, floor)
    assert edge > 1e-8, edge
    b = [ctx.real(f"b{j}", lo=-1000, hi=1000) for j in range(p)]
    X = [[ctx.const(float(B[i, j])) + b[j] if np.isfinite(B[i, j]) else B[i, j] for j in range(p)] for i in range(n)]
    e = CellMCD(max_c_steps=limit, crit=crit, alpha=alpha, quantile=quantile, min_eigenvalue=floor)
    e.alpha_ = alpha
    A = ctx.array([[ctx.const(float(v)) for v in r] for r in S])
    I = ctx.array([[ctx.const(float(v)) for v in r] for r in np.linalg.inv(S)])
    loc, cov, inv, flags = e._C_steps_until_convergence(ctx.array(X), ctx.array(b), A, I)
    ctx.check(bool(np.all(np.asarray(flags, dtype=float) == W)), "flags of the last accepted step")
    ctx.check(ctx.all([ctx.eq(loc[j] - b[j], m[j], 1e-6) for j in range(p)]), "location of the last accepted step")
    ctx.check(ctx.all([ctx.eq(cov[i, j], C[i, j], 1e-6) for i in range(p) for j in range(p)]), "scatter of the last accepted step, eigenvalues truncated")
    J = [[sum_([inv[a, c] * cov[c, d] for c in range(p)]) for d in range(p)] for a in range(p)]
    ctx.check(ctx.all([ctx.eq(J[i][j], float(i == j), 1e-6) for i in range(p) for j in range(p)]), "the returned inverse is the inverse of the scatter")


def admissible(ctx, n, p, seed, free, alpha, missing=(), out=()):
    """columns with more than (1 - alpha) marginal outliers and missing cells, or too few rows, are rejected"""
    from robpy.covariance import CellMCD
    from scipy.stats import chi2

    X = cells(ctx, n, p, seed, free, missing)
    for i, j in out:
        X[i][j] = ctx.const(9.0 if i % 2 else -9.0)
    e = CellMCD(alpha=alpha)
    e.alpha_ = alpha
    c = math.sqrt(chi2.ppf(0.99, 1))
    bad = [sum((i, j) in missing or ctx.if_(abs_(ctx, X[i][j]), ">", c) for i in range(n)) for j in range(p)]
    want = any(b / n > 1 - alpha for b in bad) or n < 5 * p
    A = ctx.array(X)
    try:
        e._check_data(A)
        got = False
    except ValueError:
        got = True
    ctx.check(got == want, "rejected exactly if a column has too many outlying or missing cells or there are too few rows")
    ctx.check(ctx.all([ctx.eq(A[i, j], X[i][j], 0) for i in range(n) for j in range(p) if (i, j) not in missing]), "data unchanged")


def scenarios(tier):
    S = Scenario
    P2 = [[1, 0], [0, 1], [1, 1], [0, 0], [1, 1], [1, 0]]
    P3 = [[1, 0, 1], [0, 1, 1], [1, 1, 1], [0, 0, 1], [0, 0, 0], [1, 1, 0], [1, 1, 1]]
    out = [S("flags p=1", update, dict(n=5, p=1, seed=1, free=[(0, 0), (3, 0)], missing=[(2, 0)], h=3)),
           S("flags p=2", update, dict(n=6, p=2, seed=2, free=[(1, 0)], W=P2)),
           S("flags p=2 two cells", update, dict(n=6, p=2, seed=3, free=[(0, 0), (4, 1)], missing=[(2, 1)], h=4)),
           S("flags p=2 one row", update, dict(n=6, p=2, seed=4, free=[(5, 0), (5, 1)], W=P2, h=4)),
           S("flags p=3", update, dict(n=7, p=3, seed=5, free=[(3, 2)], W=P3, missing=[(0, 1)])),
           S("flags p=3 low cutoff", update, dict(n=7, p=3, seed=6, free=[(2, 0)], W=P3, q=0.5, h=5)),
           S("flags p=2 any cutoff", update, dict(n=6, p=2, seed=7, free=[(1, 1)], W=P2, q="free")),
           S("step p=2", update, dict(n=6, p=2, seed=9, free=[(2, 0)], missing=[(0, 1), (4, 0), (4, 1)], h=4, step=True)),
           S("step p=2 two cells", update, dict(n=6, p=2, seed=10, free=[(2, 0), (2, 1)], W=P2, step=True)),
           S("step p=3", update, dict(n=7, p=3, seed=11, free=[(4, 1)], W=P3, missing=[(0, 1), (4, 0)], step=True)),
           S("iterations n=8 one step", iterate, dict(n=8, seed=1, free=[(2, 0)], steps=1, lo=-1, hi=1), prec=128, path_timeout=60),
           S("iterations n=10 any tolerance", iterate, dict(n=10, seed=2, free=[], steps=4, missing=[(0, 0), (7, 1)], crit="free", quantile=0.8), prec=128, path_timeout=60),
           S("iterations n=12 any tolerance", iterate, dict(n=12, seed=3, free=[], steps=6, crit="free", alpha=0.6, quantile=0.7), prec=128, path_timeout=60),
           S("iterations n=10 far cell", iterate, dict(n=10, seed=4, free=[(5, 1)], steps=3, lo=20, hi=1000), prec=128, path_timeout=60),
           S("uphill p=2", uphill, dict(n=10, p=2, seed=24, scale=0.125, rho=0.8, alpha=0.75, quantile=0.9, floor=1.0), prec=128, path_timeout=60),
           S("uphill p=3", uphill, dict(n=12, p=3, seed=23, scale=0.125, rho=0.0, alpha=0.75, quantile=0.9, floor=3.0), prec=128, path_timeout=60),
           S("truncated p=2", uphill, dict(n=13, p=2, seed=21, scale=0.2, rho=0.5, alpha=0.6, quantile=0.9, floor=0.3, missing=[(3, 0), (5, 1)], crit=1e-2, limit=40), prec=128, path_timeout=60),
           S("data n=10", admissible, dict(n=10, p=2, seed=1, free=[(1, 0), (6, 0)], alpha=0.75, missing=[(0, 0)])),
           S("data n=10 many missing", admissible, dict(n=10, p=2, seed=2, free=[(1, 1)], alpha=0.75, missing=[(0, 1), (2, 1)], out=[(4, 0), (5, 0)])),
           S("data n=9", admissible, dict(n=9, p=2, seed=3, free=[(4, 0)], alpha=0.6)),
           S("data n=15 p=3", admissible, dict(n=15, p=3, seed=4, free=[(4, 2), (7, 2)], alpha=0.9, out=[(0, 1)]))]
    return out
