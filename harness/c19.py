"""CellMCD predictions: conditional mean and variance of every cell given the other kept cells of its row; imputation and residuals."""
import itertools

import numpy as np

from symrob.runner import Scenario
from harness.c14 import sample
from harness.common import adj_, det_

FUNCTIONS = ["covariance.cellmcd.CellMCD._make_predictions (and the four prediction helpers)", "covariance.cellmcd.CellMCD.calculate_covariance (steps 4 and 5)",
             "utils.general.inverse_submatrix"]
BOUNDS = ("predictions: p=1..4, every cell and the location free in [-1000, 1000] with concrete scatter, or a free correlation in [-0.95, 0.95]; every flag pattern of a "
          "row; whole fits: concrete samples n=15..24, p=2..3 with missing cells, outlying cells, empty rows and integer data, one cell free "
          "over a range of values away from (or inside) the bulk")
STUBS = ["OneStepWrapping, DDC and wrapping run symbolically; tanh is an uninterpreted odd increasing function"]
BUDGET = 60
BASE = [[2.0, 0.5, -0.25, 0.375], [0.5, 1.0, 0.125, -0.5], [-0.25, 0.125, 3.0, 0.25], [0.375, -0.5, 0.25, 1.5]]


def conditional(x, w, j, mu, S):
    """mean and variance of coordinate j given the kept other coordinates"""
    o = [a for a in range(len(w)) if w[a] and a != j]
    if not o:
        return mu[j], S[j][j]
    M = [[S[a][b] for b in o] for a in o]
    D, A = det_(M), adj_(M)
    c = [S[j][a] for a in o]
    m, v = mu[j], S[j][j]
    for a in range(len(o)):
        for b in range(len(o)):
            m = m + c[a] * A[a][b] * (x[o[b]] - mu[o[b]]) / D
            v = v - c[a] * A[a][b] * c[b] / D
    return m, v


def predictions(ctx, n, p, W, mode="free", missing=True):
    from robpy.covariance import CellMCD

    if mode == "corr":
        r = ctx.real("r", lo=-0.95, hi=0.95)
        S = [[ctx.const((1.0 if a == 0 else 2.0) if a == b else 0.0) for b in range(p)] for a in range(p)]
        S[0][1] = S[1][0] = r
        X = [[ctx.const(0.25 * ((7 * i + 3 * j) % 11) - 1) for j in range(p)] for i in range(n)]
        X[0][0] = ctx.real("x00", lo=-1000, hi=1000)
        mu = [ctx.const(0.5 * j - 0.25) for j in range(p)]
    else:
        S = [[ctx.const(BASE[a][b]) for b in range(p)] for a in range(p)]
        X = [[ctx.real(f"x{i}{j}", lo=-1000, hi=1000) for j in range(p)] for i in range(n)]
        mu = [ctx.real(f"m{j}", lo=-1000, hi=1000) for j in range(p)]
    D, A = det_(S), adj_(S)
    Si = [[A[a][b] / D for b in range(p)] for a in range(p)]
    Y = [[ctx.const(float("nan")) if missing and not W[i][j] and (i + j) % 2 else X[i][j] for j in range(p)] for i in range(n)]
    P, V = CellMCD()._make_predictions(ctx.array(Y), ctx.array(S), ctx.array(Si), ctx.array(mu), np.array(W, dtype=float))
    for i in range(n):
        for j in range(p):
            m, v = conditional(X[i], W[i], j, mu, S)
            ctx.check(ctx.eq(P[i, j], m, 1e-6), "prediction of a cell: its conditional mean given the other kept cells of the row")
            ctx.check(ctx.eq(V[i, j], v, 1e-7), "its conditional variance")


def fit(ctx, n, p, seed, cell=None, rng=(), missing=(), out=(), ints=False, **k):
    """a whole fit: predictions, standard deviations, imputation and residuals in the units of the data"""
    from robpy.covariance import CellMCD
    from robpy.preprocessing import RobustScaler
    from robpy.univariate.onestep_m import OneStepWrapping

    B = sample(n, p, seed)
    if ints:
        B = np.round(B * 20)
    X = [[ctx.const(float(v)) for v in r] for r in B]
    for i, j in missing:
        X[i][j] = ctx.const(float("nan"))
    for i, j, v in out:
        X[i][j] = ctx.const(float(v))
    if cell:
        X[cell[0]][cell[1]] = ctx.real("x", lo=rng[0], hi=rng[1])
    A = ctx.array(X)
    if ints and not ctx.symbolic and cell is None:
        A = np.array(A, dtype=int)
    e = CellMCD(**k).fit(A)
    W = np.array([[1 if ctx.if_(e.W[i, j], "==", 1) else 0 for j in range(p)] for i in range(n)])
    S = [list(r) for r in e.covariance_]
    mu = list(e.location_)
    nan = set(missing)
    R = []
    ctx.check(all(W[i, j] == 0 for i, j in missing), "missing cells are flagged")
    for i in range(n):
        R.append([])
        for j in range(p):
            m, v = conditional(X[i], W[i], j, mu, S)
            ctx.check(ctx.eq(e.predictions[i, j], m, 1e-6), "prediction: conditional mean under the estimated location and scatter")
            ctx.check(ctx.eq(e.conditional_stds[i, j] * e.conditional_stds[i, j], v, 1e-6) & ctx.ge(e.conditional_stds[i, j], 0), "conditional standard deviation")
            ctx.check(ctx.eq(e.X_imputed[i, j], X[i][j], 0) if W[i, j] else ctx.eq(e.X_imputed[i, j], e.predictions[i, j], 0),
                      "imputed data: kept cells unchanged, flagged cells predicted")
            R[i].append(ctx.const(float("nan")) if (i, j) in nan else (X[i][j] - m) / ctx.sqrt(v))
    sc = RobustScaler(scale_estimator=OneStepWrapping()).fit(ctx.array(R), ignore_nan=True).scales_
    for i in range(n):
        for j in range(p):
            if (i, j) in nan:
                ctx.check(ctx.is_nan(e.residuals[i, j]), "no residual for a missing cell")
            else:
                ctx.check(ctx.eq(e.residuals[i, j] * sc[j], R[i][j], 1e-4), "residual: standardized difference from the prediction, rescaled per column")
    ctx.check(ctx.all([ctx.eq(A[i, j], X[i][j], 0) for i in range(n) for j in range(p) if (i, j) not in nan]), "data unchanged")


def scenarios(tier):
    S = Scenario
    pat = lambda p: [list(w) for w in itertools.product([1, 0], repeat=p)]
    out = [S("predictions p=2", predictions, dict(n=6, p=2, W=pat(2) + [[1, 0], [1, 1]])),
           S("predictions p=3", predictions, dict(n=9, p=3, W=pat(3) + [[1, 0, 1]])),
           S("predictions p=4", predictions, dict(n=6, p=4, W=[[1, 1, 1, 1], [1, 1, 1, 0], [0, 1, 1, 0], [1, 0, 0, 0], [0, 0, 0, 0], [0, 1, 1, 0]])),
           S("predictions p=3 free correlation", predictions, dict(n=8, p=3, W=pat(3), mode="corr")),
           S("predictions p=2 free correlation", predictions, dict(n=4, p=2, W=pat(2), mode="corr")),
           S("fit n=15 p=2", fit, dict(n=15, p=2, seed=1, cell=(3, 0), rng=(30, 1e6), missing=[(5, 1)]), prec=128, path_timeout=60),
           S("fit n=16 p=3", fit, dict(n=16, p=3, seed=2, cell=(7, 2), rng=(-1e6, -30), missing=[(5, 1), (0, 2), (9, 0)], out=[(4, 1, 25), (9, 1, -40), (9, 2, 35)]),
             prec=128, path_timeout=60),
           S("fit n=16 p=2 integers", fit, dict(n=16, p=2, seed=3, out=[(2, 1, 500)], ints=True), prec=128, path_timeout=60)]
    if tier == "thorough":
        out += [S("predictions p=4 all patterns", predictions, dict(n=16, p=4, W=pat(4))),
                S("predictions p=4 free correlation", predictions, dict(n=16, p=4, W=pat(4), mode="corr"))]
    return out
