"""CellMCD objective: observed-data negative log-likelihood of the unflagged cells."""
import itertools
import math

import numpy as np

from symrob.runner import Scenario
from harness.common import adj_, det_, quad_, sum_

FUNCTIONS = ["covariance.utils.cellmcd_utils.objective_function", "utils.general.inverse_submatrix"]
BOUNDS = ("n=2..7 rows, p=1..4 variables: every cell and location entry free in [-1000, 1000] with concrete positive definite scatter, or the correlation free in "
          "[-0.95, 0.95] with two free cells; every flag pattern of a row (all kept ... all flagged), patterns repeated over non-adjacent rows")
STUBS = ["log: uninterpreted increasing function of the determinants; equal arguments give equal values"]
BUDGET = 40
BASE = [[2.0, 0.5, -0.25, 0.375], [0.5, 1.0, 0.125, -0.5], [-0.25, 0.125, 3.0, 0.25], [0.375, -0.5, 0.25, 1.5]]


def nll(ctx, rows, W, mu, S):
    """own definition, one row at a time"""
    tot = []
    for x, w in zip(rows, W):
        o = [j for j in range(len(w)) if w[j]]
        if not o:
            continue
        M = [[S[a][b] for b in o] for a in o]
        D = det_(M)
        d = [x[j] - mu[j] for j in o]
        tot += [quad_(d, adj_(M)) / D, ctx.log(D), len(o) * math.log(2 * math.pi)]
    return sum_(tot)


def setup(ctx, n, p, mode):
    if mode == "corr":
        r = ctx.real("r", lo=-0.95, hi=0.95)
        S = [[ctx.const(1.0 if a == b else 0.0) for b in range(p)] for a in range(p)]
        S[0][1] = S[1][0] = r
        S[1][1] = ctx.const(1.5)
        X = [[ctx.const(0.25 * ((7 * i + 3 * j) % 11) - 1) for j in range(p)] for i in range(n)]
        X[0][0], X[1][1] = ctx.real("x00", lo=-1000, hi=1000), ctx.real("x11", lo=-1000, hi=1000)
        mu = [ctx.const(0.5 * j - 0.25) for j in range(p)]
    else:
        S = [[ctx.const(BASE[a][b]) for b in range(p)] for a in range(p)]
        X = [[ctx.real(f"x{i}{j}", lo=-1000, hi=1000) for j in range(p)] for i in range(n)]
        mu = [ctx.real(f"m{j}", lo=-1000, hi=1000) for j in range(p)]
    return X, mu, S


def body(ctx, n, p, W, mode="free", missing=()):
    from robpy.covariance.utils.cellmcd_utils import objective_function

    X, mu, S = setup(ctx, n, p, mode)
    D, A = det_(S), adj_(S)
    Si = [[A[a][b] / D for b in range(p)] for a in range(p)]
    for i, j in missing:
        X[i][j] = ctx.const(float("nan"))
    args = [ctx.array(X), np.array(W, dtype=float), ctx.array(mu), ctx.array(S), ctx.array(Si)]
    v = objective_function(*args)
    ctx.check(ctx.eq(v, nll(ctx, X, W, mu, S), 1e-7), "sum over the rows of distance + log determinant + constant of the kept cells")
    keep = [(i, j) for i in range(n) for j in range(p) if (i, j) not in missing]
    ctx.check(ctx.all([ctx.eq(args[0][i, j], X[i][j], 0) for i, j in keep]) & ctx.eq_arr(args[2], ctx.array(mu), 0) & ctx.eq_arr(args[3], ctx.array(S), 0)
              & bool(np.all(args[1] == np.array(W))), "arguments unchanged")


def scenarios(tier):
    S = Scenario
    W2 = [[1, 1], [1, 0], [0, 1], [0, 0], [1, 0], [1, 1]]
    W3 = [list(w) for w in itertools.product([1, 0], repeat=3)]
    W4 = [[1, 1, 1, 1], [1, 1, 1, 0], [0, 1, 1, 0], [1, 0, 0, 0], [0, 1, 1, 1], [0, 1, 1, 0], [1, 0, 1, 0]]
    out = [S("p=1", body, dict(n=3, p=1, W=[[1], [0], [1]])), S("p=2 all patterns", body, dict(n=6, p=2, W=W2)),
           S("p=2 missing cells flagged", body, dict(n=6, p=2, W=W2, missing=[(1, 1), (2, 0), (3, 0), (3, 1)])),
           S("p=3 all patterns", body, dict(n=8, p=3, W=W3)), S("p=4", body, dict(n=7, p=4, W=W4)),
           S("p=4 all patterns", body, dict(n=16, p=4, W=[list(w) for w in itertools.product([1, 0], repeat=4)])),
           S("p=2 free correlation", body, dict(n=6, p=2, W=W2, mode="corr")), S("p=3 free correlation", body, dict(n=8, p=3, W=W3, mode="corr"))]
    if tier == "thorough":
        out += [S("p=4 free correlation", body, dict(n=16, p=4, W=[list(w) for w in itertools.product([0, 1], repeat=4)], mode="corr"))]
    return out
