"""Multivariate results follow affine changes of the data and do not depend on the order of variables or cases."""
import logging

import numpy as np

from symrob.runner import Scenario
from harness.c13 import record
from harness.c14 import sample
from harness.c22 import xy
from harness.common import cov_, det_, maha2_

FUNCTIONS = ["covariance.mcd.FastMCD.fit", "covariance.mcd.DetMCD.fit", "covariance.ogk.OGK.fit", "covariance.kendall.KendallTau.fit",
             "covariance.wrapping.WrappingCovariance.fit", "covariance.cellmcd.CellMCD.fit", "covariance.initial_ddcw.InitialDDCW.fit",
             "outliers.ddc.DDC.fit", "pca.robpca.ROBPCA.fit", "pca.spca.PCALocantore.fit", "utils.median.l1median",
             "regression.lts.FastLTSRegression.fit", "regression.s.SRegression.fit", "regression.mm.MMRegression.fit"]
STUBS = ["random generator: the real numpy generator with concrete seeds", "pandas frames of symbolic cells as in C32",
         "iterative estimators with constants of 128 significant bits"]
BOUNDS = ("two fits per path: concrete samples of n=7..24, p=2..4 with a free factor, shear or shift in the transformation, or a free shift or cell in the data "
          "and every adjacent exchange, cycle or reversal of variables (and of cases for the deterministic estimators), sign changes and rational rotations")
BUDGET = 200
Q = dict(verbosity=logging.CRITICAL)


def perms(how, m):
    return {"reverse": list(range(m))[::-1], "cycle": list(range(1, m)) + [0], "swap": [1, 0] + list(range(2, m)),
            "shuffle": [int(v) for v in np.random.default_rng(m).permutation(m)]}[how]


def makers():
    from robpy.covariance import DetMCD, FastMCD, KendallTau, OGK, WrappingCovariance
    from robpy.covariance.cellmcd import CellMCD
    from robpy.covariance.initial_ddcw import InitialDDCW
    from robpy.outliers.ddc import DDC
    from robpy.pca.robpca import ROBPCA
    from robpy.pca.spca import PCALocantore
    from robpy.univariate import Qn, Tau

    return {
        "FastMCD": lambda: FastMCD(n_initial_subsets=4, n_best_subsets=2, random_seed=3, **Q),
        "FastMCD, alpha": lambda: FastMCD(alpha=0.75, n_initial_subsets=3, n_best_subsets=2, random_seed=5, **Q),
        "FastMCD, raw": lambda: FastMCD(n_initial_subsets=3, n_best_subsets=1, random_seed=5, correct_covariance=False, reweighting=False, **Q),
        "FastMCD, groups": lambda: FastMCD(n_initial_subsets=4, n_best_subsets=2, n_partitions=2, random_seed=0, **Q),
        "FastMCD, few steps": lambda: FastMCD(n_initial_subsets=2, n_best_subsets=2, n_initial_c_steps=1, random_seed=5, correct_covariance=False, reweighting=False, **Q),
        "DetMCD": lambda: DetMCD(**Q),
        "DetMCD, alpha": lambda: DetMCD(alpha=0.8, reweighting=False, **Q),
        "OGK": lambda: OGK(),
        "OGK, one iteration, reweighted": lambda: OGK(n_iterations=1, reweighting=True),
        "KendallTau": lambda: KendallTau(),
        "Wrapping": lambda: WrappingCovariance(),
        "CellMCD": lambda: CellMCD(alpha=0.5, **Q),
        "CellMCD, alpha": lambda: CellMCD(alpha=0.75, quantile=0.95, **Q),
        "InitialDDCW": lambda: InitialDDCW(alpha=0.5, **Q),
        "DDC": lambda: DDC(),
        "DDC, correlations": lambda: DDC(min_correlation=0.2, chi2_quantile=0.95),
        "ROBPCA": lambda: ROBPCA(n_components=2, random_seed=1, **Q),
        "ROBPCA, no final MCD": lambda: ROBPCA(n_components=1, final_MCD_step=False, random_seed=0, **Q),
        "PCALocantore": lambda: PCALocantore(n_components=1),
        "PCALocantore, two": lambda: PCALocantore(n_components=2),
    }


def matvec(M, v):
    return [sum((a * b for a, b in zip(r[1:], v[1:])), r[0] * v[0]) for r in M]


def conj(M, C):
    p = len(C)
    N = [[sum((M[i][k] * C[k][j] for k in range(1, p)), M[i][0] * C[0][j]) for j in range(p)] for i in range(p)]
    return [[sum((N[i][k] * M[j][k] for k in range(1, p)), N[i][0] * M[j][0]) for j in range(p)] for i in range(p)]


def linear(ctx, how, p):
    """matrix and shift of the transformation of the variables"""
    I = [[1 if i == j else 0 for j in range(p)] for i in range(p)]
    t = [0] * p
    if how == "factor":
        I[0][0] = ctx.real("k", lo=0.01, hi=100)
    elif how == "units":
        k = ctx.real("k", lo=1e-5, hi=1e4)
        I = [[k if v else 0 for v in r] for r in I]
    elif how == "negative factor":
        I[p - 1][p - 1] = ctx.real("k", lo=-100, hi=-0.01)
    elif how == "shear":
        I[0][1] = ctx.real("s", lo=-50, hi=50)
    elif how == "singular values":
        k = ctx.real("k", lo=0.01, hi=100)
        I[0][0], I[0][1], I[1][0] = k, 2 * k, -1
    elif how == "shift":
        s = ctx.real("s", lo=-1000, hi=1000)
        t = [s * c for c in (1, -0.5, 2, 0.25)[:p]]
    elif how == "sign":
        I[0][0] = -1
    elif how == "all signs":
        I = [[-v for v in r] for r in I]
    elif how[:9] == "variables":
        P = perms(how[10:], p)
        I = [[1 if j == P[i] else 0 for j in range(p)] for i in range(p)]
    elif how == "rotation":
        from harness.c35 import third
        c, s = ctx.const(third(3, 5)), ctx.const(third(4, 5))
        I[0][0], I[0][1], I[1][0], I[1][1] = c, -s, s, c
    return I, t


def frame_or_array(ctx, kind, rows):
    return ctx.frame(rows, [f"c{j}" for j in range(len(rows[0]))]) if kind == "frame" else ctx.array(rows)




def separated(ctx, rows, s, h):
    """the p+1 observations of an initial subset have the same distance: stop if h of the distances do not stand out"""
    p = len(rows[0])
    mu, C = cov_([rows[i] for i in s])
    if ctx.if_(det_(C), "<=", 1e-9):
        ctx.stop()
    same = ctx.const(p * p) / (p + 1)
    near = sum(1 for i, r in enumerate(rows) if i not in s and ctx.if_(maha2_(r, mu, C), "<", same))
    if near < h < near + p + 1:
        ctx.stop()


def body(ctx, which, how, n, p, seed, kind="mat", free=None, out="cov", gross=(), hole=(), tol=1e-6):
    rows = [[ctx.const(float(v)) for v in r] for r in sample(n, p, seed)]
    for i, j, v in gross:
        rows[i][j] = ctx.const(float(v))
    if free == "shift":
        b = ctx.real("b", lo=-1000, hi=1000)
        rows = [[v + b * (1 + j) for j, v in enumerate(r)] for r in rows]
    elif free:
        rows[free[0]][free[1]] = ctx.real("z", lo=-1000, hi=1000)
    if how[:5] == "cases":
        P = perms(how[6:], n)
        moved = [list(rows[i]) for i in P]
        M, t = linear(ctx, "none", p)
    else:
        P = list(range(n))
        M, t = linear(ctx, how, p)
        plain = all(isinstance(v, int) and v in (0, 1, -1) for r in M for v in r)
        moved = []
        for r in rows:
            moved.append([(next(v if m == 1 else -v for m, v in zip(R, r) if m) if plain and how != "shift" else matvec([R], r)[0]) + (t[j] if how == "shift" else 0)
                          for j, R in enumerate(M)])
    if hole:
        nan = float("nan")
        perm = lambda i, j: (P.index(i), next(a for a in range(p) if M[a][j] != 0 or isinstance(M[a][j], float)) if how[:9] == "variables" else j)
        for i, j in hole:
            rows[i][j] = nan
            a, c = perm(i, j)
            moved[a][c] = nan
    e = makers()[which]()
    f = makers()[which]()
    X, Y = frame_or_array(ctx, kind, rows), frame_or_array(ctx, kind, moved)
    log, undo = record(ctx)
    try:
        e.fit(X)
    finally:
        undo()
    if which[:7] == "FastMCD" and "groups" not in which:
        h = max(int(e.alpha * n), (n + p + 1) // 2) if e.alpha else (n + p + 1) // 2
        for s in [s.tolist() for s in log if s.size == p + 1]:
            separated(ctx, rows, s, h)
    f.fit(Y)
    if out == "cov":
        l, C = list(e.location_), [list(r) for r in np.asarray(e.covariance_)]
        m, D = list(f.location_), [list(r) for r in np.asarray(f.covariance_)]
        want = [a + b for a, b in zip(matvec(M, l), t)]
        ctx.check(ctx.all([ctx.eq(a, b, tol) for a, b in zip(m, want)]), "the location follows")
        W = conj(M, C)
        ctx.check(ctx.all([ctx.eq(D[i][j], W[i][j], tol) for i in range(p) for j in range(p)]), "the scatter follows")
        if hole or kind == "frame" or which in ("KendallTau", "Wrapping"):
            return
        a, c = list(e.mahalanobis(X)), list(f.mahalanobis(Y))
        ctx.check(ctx.all([ctx.eq(c[k], a[P[k]], tol) for k in range(n)]), "the distances stay")
    elif out == "pca":
        a, c = np.asarray(e.project(X)), np.asarray(f.project(Y))
        want = [matvec(M, [v - u for v, u in zip(a[P[k]], [0] * p)]) for k in range(n)]
        k = e.n_components
        ctx.check(ctx.all([ctx.eq(x, y, tol) for x, y in zip(list(e.explained_variance_), list(f.explained_variance_))]), "the variances stay")
        m, l = list(f.location_), list(e.location_)
        ctx.check(ctx.all([ctx.eq(x, y, tol) for x, y in zip(m, [u + v for u, v in zip(matvec(M, l), t)])]), "the location follows")
        ctx.check(ctx.all([ctx.eq(c[i][j], want[i][j], tol) for i in range(n) for j in range(p)]), "the projections follow")
        s, u = np.asarray(e.transform(X)), np.asarray(f.transform(Y))
        ctx.check(ctx.all([ctx.eq(u[i, j] * u[i, j], s[P[i], j] * s[P[i], j], tol) for i in range(n) for j in range(k)]), "the scores stay up to sign")
    elif out == "ddc":
        A, B = e.cellwise_outliers_, f.cellwise_outliers_
        r, s = np.asarray(e.standardized_residuals_), np.asarray(f.standardized_residuals_)
        A, B = np.asarray(A), np.asarray(B)
        src = [next((j, M[i][j]) for j in range(p) if M[i][j] != 0) for i in range(p)]
        ok, fl = [], []
        for i in range(n):
            for j in range(p):
                a, g = src[j]
                if (P[i], a) in hole:
                    ok.append(ctx.is_nan(s[i, j]))
                else:
                    ok.append(ctx.eq(s[i, j], r[P[i], a] * g, tol))
                fl.append(bool(B[i, j]) == bool(A[P[i], a]))
        ctx.check(ctx.all(ok), "the standardized residuals follow")
        ctx.check(all(fl), "the same cells are flagged")
        ctx.check(all(bool(v) == bool(w) for v, w in zip(np.asarray(f.row_outliers_), np.asarray(e.row_outliers_)[P])), "the same cases are flagged")


def regression(ctx, kind, how, n, p, seed, tol=1e-4):
    """changing the coordinates of the features (not the responses) leaves predictions and scale"""
    from harness import c27
    from robpy import regression as rg

    def make(kind, seed):
        if kind[:3] == "lts":
            return c27.make(kind, seed)
        i = rg.SRegression(n_initial_subsets=3, n_best_subsets=2, scale_tolerance=0.0, relative_tolerance=1e-9, random_state=seed)
        return i if kind == "s" else rg.MMRegression(initial_estimator=c27.make("lts", seed) if kind == "mm-lts" else i, epsilon=1e-9)

    logging.getLogger("FastLTS").disabled = True
    X, y = xy(n, p, seed)
    rows = [[ctx.const(float(v)) for v in r] for r in X]
    M, t = linear(ctx, how, p)
    moved = [[a + b for a, b in zip(matvec(M, r), t)] for r in rows]
    yy = [ctx.const(float(v)) for v in y]
    if how in ("sign", "all signs") or how[:9] == "variables":
        b = ctx.real("b", lo=-100, hi=100)
        yy = [v + b for v in yy]
    e, f = make(kind, seed).fit(ctx.array(rows), ctx.array(yy)), make(kind, seed).fit(ctx.array(moved), ctx.array(yy))
    k = p + 2
    a, c = np.asarray(e.predict(ctx.array(rows[:k]))).reshape(-1), np.asarray(f.predict(ctx.array(moved[:k]))).reshape(-1)
    ctx.check(ctx.all([ctx.eq(x, z, tol) for x, z in zip(a, c)]), "the predictions stay")
    ctx.check(ctx.eq(e.scale, f.scale, tol), "the scale stays")


def median(ctx, how, n, p, seed):
    from robpy.utils.median import l1median

    rows = [[ctx.const(float(v)) for v in r] for r in sample(n, p, seed)]
    b = ctx.real("b", lo=-1000, hi=1000)
    rows = [[v + b for v in r] for r in rows]
    M, t = linear(ctx, how if how[:5] != "cases" else "none", p)
    moved = [rows[i] for i in perms(how[6:], n)] if how[:5] == "cases" else [matvec(M, r) for r in rows]
    a, c = l1median(ctx.array(rows)), l1median(ctx.array(moved))
    ctx.check(ctx.all([ctx.eq(x, y, 1e-5) for x, y in zip(c, matvec(M, list(a)))]), "the spatial median follows")


def scenarios(tier):
    S = Scenario
    big = tier != "quick"
    out = []

    def add(which, how, n, p, seed, **kw):
        hi = {k: kw.pop(k) for k in ("prec", "max_paths") if k in kw}
        out.append(S(f"{which}: {how}, n={n} p={p}, sample {seed}" + (f", free {kw['free']}" if kw.get("free") else "") + (", missing cells" if kw.get("hole") else ""), body,
                     dict(which=which, how=how, n=n, p=p, seed=seed, **kw), path_timeout=60, **hi))

    for k, how in enumerate(("factor", "negative factor", "shear", "singular values", "shift")):
        add("FastMCD", how, 12, 2, (1, 2, 11, 4, 5)[k])
        add("FastMCD, alpha", how, 14, 3, (4, 5, 6, 7, 12)[k])
    for w, n, seed in (("DetMCD", 16, 2), ("DetMCD", 16, 27), ("DetMCD", 16, 39), ("DetMCD", 16, 45), ("DetMCD, alpha", 16, 50), ("FastMCD, raw", 16, 17), ("FastMCD, raw", 16, 37),
                       ("FastMCD, few steps", 16, 37), ("FastMCD, few steps", 16, 17), ("FastMCD, few steps", 16, 26)):
        add(w, "units", n, 2, seed)
    for k in range(2):
        add("FastMCD, raw", "units", 24 + k, 3, 40 + k)
        add("DetMCD, alpha", "units", 20 + k, 3 + k % 2, 40 + k)
    add("FastMCD, raw", "shear", 11, 2, 5)
    add("FastMCD, raw", "factor", 13, 3, 5)
    add("FastMCD, groups", "shear", 24, 2, 2)
    for k, how in enumerate(("sign", "variables swap", "variables cycle")):
        add("FastMCD", how, 9, 2 + k // 2, (3, 4, 6)[k], free=(k, k % 2), max_paths=60 if big else 10)
        add("FastMCD, groups", how, 24, 2 + k // 2, 3 + k, free="shift")
    for w in ("DetMCD", "DetMCD, alpha"):
        for k, how in enumerate(("factor", "negative factor", "shift")):
            add(w, how, 14, 2, 3 + k)
        for k, how in enumerate(("sign", "variables swap", "cases reverse", "cases shuffle")):
            add(w, how, 13, 2 + k % 2, 2 + k, free="shift")
    for w in ("OGK", "OGK, one iteration, reweighted"):
        for k, how in enumerate(("factor", "negative factor", "shift")):
            add(w, how, 10, 2, 3 + k)
        for k, how in enumerate(("sign", "variables swap", "cases reverse", "cases shuffle")):
            add(w, how, 9, 2, 2 + k, free="shift")
        add(w, "variables cycle", 11, 3, 7, free="shift")
    for w in ("KendallTau", "Wrapping"):
        for k, how in enumerate(("factor", "negative factor", "shift")):
            add(w, how, 8, 2 + k % 2, 3 + k)
        for k, how in enumerate(("sign", "variables cycle", "cases reverse", "cases shuffle")):
            add(w, how, 6 if w[0] == "K" else 9, 2 + k % 2, 2 + k, free=(k, 1) if w[0] == "K" else "shift", **({} if big or w[0] != "K" else dict(max_paths=24)))
    g = ((2, 1, 9.0), (5, 0, -8.0))
    for w in ("CellMCD", "CellMCD, alpha", "InitialDDCW"):
        for k, how in enumerate(("sign", "all signs", "variables swap", "variables cycle", "cases reverse", "cases shuffle")):
            if w == "InitialDDCW" and how == "all signs":
                continue
            add(w, how, 16 + k, 2 + (k > 2), 2 + k, free="shift", kind="frame" if k % 2 else "mat", prec=128, gross=g, hole=((1, 0), (7, 1)) if k % 2 else ())
    for w in ("DDC", "DDC, correlations"):
        for k, how in enumerate(("sign", "all signs", "variables swap", "variables cycle", "cases reverse", "cases shuffle")):
            add(w, how, 14 + k, 3, 2 + k, free="shift", kind="frame", out="ddc", gross=g, hole=((1, 0), (7, 1)))
    for w, n, p in (("ROBPCA", 14, 3), ("ROBPCA, no final MCD", 12, 2), ("PCALocantore", 9, 2), ("PCALocantore, two", 10, 3)):
        for how in ("sign", "variables cycle", "rotation", "shift") + (("cases reverse", "cases shuffle") if w[0] == "P" else ()):
            add(w, how, n, p, 1, free=None if how == "shift" else "shift", out="pca", prec=128, **(dict(max_paths=24 if big else 8) if w[0] == "P" else {}))
    for kind, p in (("lts", 2), ("s", 2), ("mm", 2), ("mm-lts", 2), ("lts", 3)):
        for how in ("factor", "negative factor", "shear", "shift", "variables cycle", "sign"):
            if big or kind not in ("s", "mm") or how in (("factor", "shear") if kind == "s" else ("shift", "negative factor")):
                out.append(S(f"regression {kind} p={p}: {how}", regression, dict(kind=kind, how=how, n=16, p=p, seed=2), prec=128, path_timeout=60,
                             **(dict(max_paths=8) if kind in ("s", "mm") and not big else {})))
    for how in ("sign", "variables cycle", "rotation", "cases reverse", "cases shuffle"):
        out.append(S(f"spatial median: {how}", median, dict(how=how, n=8, p=3, seed=4), prec=128, path_timeout=60, max_paths=40 if big else 8))
    if big:
        for j in range(1, 4):
            for how in ("factor", "shear", "singular values", "negative factor"):
                add("FastMCD", how, 14 + j, 2 + j % 3, 20 + j)
                add("FastMCD, groups", how, 24 + j, 2, 20 + j)
            for how in ("cases shuffle", "variables cycle", "sign"):
                for w in ("DetMCD", "OGK", "DetMCD, alpha"):
                    add(w, how, 14 + j, 2 + j % 3, 30 + j, free="shift")
                for w in ("CellMCD", "InitialDDCW"):
                    add(w, how, 20 + j, 2 + j % 2, 30 + j, free="shift", prec=128, gross=g)
                add("DDC", how, 20 + j, 4, 30 + j, free="shift", kind="frame", out="ddc", gross=g, hole=((1, 0), (7, 1)))
                if how != "cases shuffle":
                    add("ROBPCA", how, 14 + j, 3 + j % 2, 30 + j, free="shift", out="pca", prec=128)
    return out
