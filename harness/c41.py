"""InitialDDCW, the start of CellMCD: the whole estimate against an own implementation on top of the fitted DDC."""
import numpy as np
from scipy.stats import chi2, norm

from symrob.runner import Scenario
from harness.c14 import sample

FUNCTIONS = ["covariance.initial_ddcw.InitialDDCW.calculate_covariance", "covariance.base.RobustCovariance.fit", "outliers.ddc.DDC.fit",
             "preprocessing.utils.wrapping_transformation", "covariance.utils.alter_covariance.truncated_covariance / covariance_to_correlation"]
BOUNDS = ("n=16..30, p=2..3, concrete samples with outlying, missing and all-missing-but-one rows: every shift in [-1000, 1000] and rescaling in [10^-3, 10^3] of every "
          "column, one outlying cell of any size in [50, 10^6] on either side, every alpha in [0.5, 1], integer data")
STUBS = ["pandas frames of symbolic cells as in C32", "tanh: uninterpreted odd increasing function", "eigenvectors of constant matrices: LAPACK"]
BUDGET = 90
NAN = float("nan")


# own implementation for numbers
def psi_(z, b=1.5, c=4.0, q1=1.540793, q2=0.8622731):
    a = np.abs(z)
    return np.where(a < b, z, np.where(a < c, q1 * np.tanh(q2 * (c - a)) * np.sign(z), 0.0))


def est_(x):
    """one-step location and scale with the wrapping function"""
    from robpy.univariate.onestep_m import OneStepWrapping

    e = OneStepWrapping().fit(np.asarray(x, float))
    return float(np.asarray(e.location)), float(np.asarray(e.scale))


def wrapped_cov(Z, floor):
    L, V = np.linalg.eigh(np.cov(Z, rowvar=False))
    V = V[:, L > floor][:, ::-1]
    P = Z @ V
    m, s = np.array([est_(c) for c in P.T]).T
    s = np.maximum(s, floor)
    T = psi_((P - m) / s)
    T = T * s + m
    T = (T - T.mean(0)) / T.std(0) * s + m
    C = V @ np.atleast_2d(np.cov(T, rowvar=False)) @ V.T
    d = np.sqrt(np.diag(C))
    C = C / np.outer(d, d)
    l, U = np.linalg.eigh(C)
    return U @ np.diag(np.maximum(l, floor)) @ U.T


def reference(X, alpha, floor):
    import pandas as pd
    from robpy.outliers import DDC
    from robpy.univariate.onestep_m import OneStepWrapping

    n, p = X.shape
    a = max(alpha, (n // 2 + 1) / n)
    d = DDC(chi2_quantile=0.9, scale_estimator=OneStepWrapping()).fit(pd.DataFrame(X))
    m, s = np.array(d.location_), np.array(d.scale_)
    R = np.array(d.standardized_residuals_, float)
    flag = np.array(d.cellwise_outliers_, bool)
    most = int(n * (1 - a))
    for j in range(p):
        if flag[:, j].sum() > n * (1 - a) + 1e-9:
            assert not np.isnan(R[:, j]).any()
            order = sorted(range(n), key=lambda i: -abs(R[i, j]))
            flag[:, j] = False
            flag[order[:most], j] = True
    Z = (X - m) / s
    hat = (np.array(d.rescaled_predictions_, float) - m) / s
    Y = np.where(flag | np.isnan(X), hat, Z)
    C = wrapped_cov(Y[~np.array(d.row_outliers_, bool)], floor)
    I = np.linalg.inv(C)
    D = []
    for z in np.clip(Z, -2, 2):
        D.append(np.nan if np.isnan(z).any() else z @ I @ z)
    return m, s, Y, np.array(D), C


def finish(ref, p, floor):
    m, s, Y, D, _ = ref
    if np.isnan(D).any():  # the median distance is missing: no case is deleted
        keep = np.ones(len(D), bool)
        edge = 1.0
    else:
        r = D / np.median(D) * chi2.ppf(0.5, p) - chi2.ppf(0.99, p)
        keep, edge = r <= 0, np.min(np.abs(r))
    assert edge > 1e-6
    return wrapped_cov(Y[keep], floor) * np.outer(s, s)


def fit(ctx, n, p, seed, holes=(), cell=None, rng=None, how="", alpha=0.75, floor=1e-4, ints=False):
    from robpy.covariance.initial_ddcw import InitialDDCW

    B = sample(n, p, seed)
    if ints:
        B = np.round(B * 10)
    for i, j, v in holes:
        B[i, j] = v
    far = None
    N = B.copy()
    if cell:
        far = ctx.real("x", lo=rng[0], hi=rng[1])
        N[cell] = rng[0]
    b = [ctx.real(f"b{j}", lo=-1000, hi=1000) if "shift" in how and j < 2 else ctx.const(0.5 * j) for j in range(p)]
    k = [ctx.real("k", lo=1e-3, hi=1e3) if "scale" in how and j == 0 else ctx.const(1 if ints else 4.0 ** j) for j in range(p)]
    if ints:
        b = [ctx.const(0)] * p
    X = [[far * k[j] + b[j] if cell == (i, j) else ctx.const(float(B[i, j])) * k[j] + b[j] if np.isfinite(B[i, j]) else B[i, j] for j in range(p)] for i in range(n)]
    A = ctx.array(X)
    if ints and not ctx.symbolic and cell is None:
        A = np.array(A, dtype=int)
    if alpha == "free":
        alpha = ctx.real("alpha", lo=0.5, hi=1)
        t = alpha if ctx.if_(alpha, ">", (n // 2 + 1) / n) else ctx.const((n // 2 + 1) / n)
        most = 0  # number of cells that may be flagged
        while ctx.if_((ctx.const(1) - t) * n, ">=", most + 1):
            most += 1
        if ctx.if_((ctx.const(1) - t) * n, "<=", most + 1e-6) or ctx.if_((ctx.const(1) - t) * n, ">=", most + 1 - 1e-6):
            ctx.stop()
        a = 1 - (most + 0.5) / n
        e = InitialDDCW(alpha=alpha, min_eigenvalue=floor)
    else:
        a = alpha
        e = InitialDDCW(alpha=alpha, min_eigenvalue=floor)
    e.fit(A)
    ref = reference(N, a, floor)
    C = finish(ref, p, floor)
    ctx.check(ctx.all([ctx.eq((e.location_[j] - b[j]) / k[j], ref[0][j], 1e-6) for j in range(p)]), "location: one-step M-estimates of the columns")
    ctx.check(ctx.all([ctx.eq(e.covariance_[i, j] / (k[i] * k[j]), C[i, j], 1e-5) for i in range(p) for j in range(p)]),
              "scatter: wrapped scatter of the imputed data along its principal axes, without the outlying cases")
    ctx.check(ctx.all([ctx.eq(sum(e.precision_[i, l] * e.covariance_[l, j] for l in range(p)) * k[i] / k[j], float(i == j), 1e-5) for i in range(p) for j in range(p)]),
              "precision: inverse of the scatter")
    ctx.check(ctx.all([ctx.eq(A[i, j], X[i][j], 0) for i in range(n) for j in range(p) if np.isfinite(B[i, j])]), "data unchanged")


def wrong(ctx, n):
    from robpy.covariance import CellMCD
    from robpy.covariance.initial_ddcw import InitialDDCW

    a = ctx.real("alpha", lo=-5, hi=5)
    X = ctx.array([[ctx.const(float(v)) for v in r] for r in sample(n, 2, 3)])
    bad = bool(ctx.if_(a, "<", 0.5)) or bool(ctx.if_(a, ">", 1))
    for cls in (InitialDDCW, CellMCD):
        e = cls(alpha=a)
        try:
            e.fit(X)
            ok = True
        except ValueError as err:
            ok = "alpha must" not in str(err)
        ctx.check(ok == (not bad), "alpha outside [0.5, 1] is rejected with ValueError")


def scenarios(tier):
    S = Scenario
    many = [(1, 0, 8.0), (4, 0, -9.0), (7, 0, 10.0), (9, 0, -12.0), (12, 0, 15.0)]
    out = [S("shift n=20", fit, dict(n=20, p=2, seed=1, holes=[(3, 0, 9.0), (5, 1, NAN)], how="shift"), prec=128, path_timeout=60),
           S("scale n=20", fit, dict(n=20, p=2, seed=2, holes=[(3, 0, 9.0), (5, 1, -12.0)], how="shift scale"), prec=128, path_timeout=60),
           S("scale p=3", fit, dict(n=18, p=3, seed=3, holes=[(2, 0, 7.0), (2, 1, -8.0), (5, 1, NAN), (6, 2, 11.0)], how="scale"), prec=128, path_timeout=60),
           S("far cell", fit, dict(n=20, p=2, seed=4, cell=(3, 0), rng=(50, 1e6)), prec=128, path_timeout=60),
           S("far cell below p=3", fit, dict(n=18, p=3, seed=5, holes=[(4, 1, NAN), (8, 0, 13.0)], cell=(6, 1), rng=(-1e6, -50)), prec=128, path_timeout=60),
           S("far cell among many", fit, dict(n=20, p=2, seed=6, holes=many, cell=(15, 0), rng=(50, 1e6), alpha=0.75), prec=128, path_timeout=60),
           S("any alpha", fit, dict(n=16, p=2, seed=7, holes=many[:4] + [(2, 1, 9.0), (6, 1, -7.5)], alpha="free"), prec=128, path_timeout=60),
           S("collinear", fit, dict(n=20, p=2, seed=8, holes=[(i, 1, 0.5 * float(v) + 0.002 * (i % 5)) for i, v in enumerate(sample(20, 2, 8)[:, 0])] + [(3, 1, 25.0)], how="scale", floor=0.01),
             prec=128, path_timeout=60),
           S("integers", fit, dict(n=16, p=2, seed=9, holes=[(2, 1, 500)], ints=True), prec=128, path_timeout=60),
           S("wrong alpha", wrong, dict(n=14), prec=128, path_timeout=60)]
    return out
