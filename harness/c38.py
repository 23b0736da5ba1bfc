"""Spatial (L1) median and spherical PCA location."""
import numpy as np

from symrob.runner import Scenario
from harness.common import sum_

FUNCTIONS = ["utils.median.l1median"]
STUBS = ["constants of the iterations kept with 128 significant bits"]
BOUNDS = ("concrete configurations of n=3..11 points, p=1..3, including coinciding points, collinear points and a mean that coincides with a point: every "
          "shift in [-1000, 1000] of every coordinate and every scale in [10^-6, 10^6], iterated to convergence; every ordering of a few points, quarter turns")
BUDGET = 60

SETS = {
    "triangle": [[0, 0], [1, 0], [0.25, 1.5]],
    "square": [[0, 0], [1, 0], [1, 1], [0, 1]],
    "cloud": [[0, 1], [2, 0.5], [-1, 3], [4, -2], [0.5, 0.25], [1, 1], [-3, -0.5]],
    "outliers": [[0, 1], [2, 0.5], [-1, 3], [400, -200], [0.5, 0.25], [1, 1], [300, 300.5]],
    "mean is a point": [[0, 0], [1, 2], [2, 1], [-6, 0], [3, -3], [0, 0.5], [0, -0.5]],
    "mean is a point, not optimal": [[0, 0], [10, 0.5], [9, -0.5], [10, -0.25], [-29, 0.25], [0, 0]],
    "majority coincides": [[1, 2], [1, 2], [1, 2], [1, 2], [7, -3], [-5, 0.5], [4, 4]],
    "half coincides": [[1, 2], [1, 2], [1, 2], [9, -3], [7, 5], [5, 0.5]],
    "all coincide": [[1, 2]] * 4,
    "two points coincide": [[0, 0], [0, 0], [3, 1], [-1, 4], [2, -5]],
    "collinear": [[0, 0], [1, 1], [2, 2], [5, 5], [-7, -7]],
    "collinear even": [[0, 0], [1, 1], [2, 2], [5, 5]],
    "one variable": [[0], [1], [2.5], [7], [-3]],
    "one variable, ties": [[0], [0], [1], [7], [7]],
    "three variables": [[0, 1, 2], [1, -1, 0.5], [3, 0, 0], [-2, 2, 1], [0.25, 0.5, -4], [1, 1, 1]],
    "three variables, mean is a point": [[0, 0, 0], [1, 2, 3], [-1, 2, -3], [3, -4, 1], [-3, 0, -1]],
    "skewed": [[2 ** i / 8, (-1) ** i * i] for i in range(9)],
}


def norm(ctx, v):
    return ctx.sqrt(sum_([a * a for a in v]))


def optimal(ctx, m, rows, unit, tol=2e-4):
    """zero is (almost) a subgradient of the sum of distances at m"""
    p = len(m)
    hold = 0
    g = [ctx.const(0)] * p
    for r in rows:
        v = [r[j] - m[j] for j in range(p)]
        q = sum_([a * a for a in v])
        if ctx.if_(q, "<=", unit * unit * 1e-10):
            hold += 1
            continue
        d = ctx.sqrt(q)
        g = [g[j] + v[j] / d for j in range(p)]
    q = sum_([a * a for a in g])
    ctx.check(ctx.le(q, (hold + tol) ** 2 if hold else tol * tol, 1e-9), "the spatial median minimises the sum of distances")


def median(ctx, which, how, unique=True, lo=1e-6, hi=1e6, tol=2e-4):
    from robpy.utils.median import l1median

    P = SETS[which]
    p = len(P[0])
    k = ctx.real("k", lo=lo, hi=hi) if "scale" in how else ctx.const(1)
    if "shifts" in how:
        b = [ctx.real(f"b{j}", lo=-1000, hi=1000) for j in range(p)]
    elif "shift" in how:
        t = ctx.real("b", lo=-1000, hi=1000)
        b = [t * (1, -0.5, 0.25)[j] for j in range(p)]
    else:
        b = [ctx.const(0)] * p
    rows = [[ctx.const(float(v)) * k + b[j] for j, v in enumerate(r)] for r in P]
    X = ctx.array(rows)
    m = list(np.asarray(l1median(X)).reshape(-1))
    ctx.check(len(m) == p, "one coordinate per variable")
    optimal(ctx, m, rows, k, tol)
    if unique:
        m0 = list(np.asarray(l1median(ctx.array([[ctx.const(float(v)) for v in r] for r in P]))).reshape(-1))
        ctx.check(ctx.all([ctx.eq((m[j] - b[j]) / k, m0[j], 2e-4) for j in range(p)]), "the spatial median follows shifts and scales")
    ctx.check(ctx.all([ctx.eq(X[i, j], rows[i][j]) for i in range(len(rows)) for j in range(p)]), "input unchanged")


def turned(ctx, which, perm):
    """reordering the observations changes nothing; quarter turns and reflections turn the median"""
    from robpy.utils.median import l1median

    P = [SETS[which][i] for i in perm]
    b = ctx.real("b", lo=500, hi=1000)
    rows = [[ctx.const(float(v)) + b for v in r] for r in SETS[which]]
    m = l1median(ctx.array(rows))
    q = l1median(ctx.array([[ctx.const(float(v)) + b for v in r] for r in P]))
    ctx.check(ctx.all([ctx.eq(m[j], q[j], 1e-4) for j in range(len(m))]), "the order of the observations has no influence")
    if len(P[0]) == 2:
        t = l1median(ctx.array([[-(ctx.const(float(r[1])) + b), ctx.const(float(r[0])) + b] for r in P]))
        ctx.check(ctx.eq(t[0], -m[1], 1e-4) & ctx.eq(t[1], m[0], 1e-4), "the median of turned observations is the turned median")


def scenarios(tier):
    S = Scenario
    K = dict(prec=128, path_timeout=60)
    out = []
    for w in SETS:
        flat = w in ("collinear even", "one variable, even")
        for how in (["shift", "scale"] if tier == "quick" else ["shift", "scale", "shifts", "shift scale"]):
            out.append(S(f"{w}, {how}", median, dict(which=w, how=how, unique=not flat), **K))
    for w in ("cloud", "mean is a point", "mean is a point, not optimal", "half coincides", "outliers", "three variables"):
        n = len(SETS[w])
        out.append(S(f"{w}, reordered", turned, dict(which=w, perm=[(3 * i + 2) % n if n % 3 else n - 1 - i for i in range(n)]), **K))
    return out
