"""Small helpers shared by the harnesses (used symbolically and natively alike)."""
import itertools

import numpy as np


def sort_(ctx, xs):
    """insertion sort by forking comparisons (own oracle, independent of np.sort)"""
    out = []
    for v in xs:
        i = len(out)
        while i > 0 and ctx.if_(out[i - 1], ">", v):
            i -= 1
        out.insert(i, v)
    return out


def median_(ctx, xs):
    s = sort_(ctx, xs)
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2


def abs_(ctx, v):
    return -v if ctx.if_(v, "<", 0) else v


def mad_(ctx, xs):
    m = median_(ctx, xs)
    return median_(ctx, [abs_(ctx, v - m) for v in xs])


def mean_(xs):
    xs = list(xs)
    t = xs[0]
    for v in xs[1:]:
        t = t + v
    return t / len(xs)


def sum_(xs, zero=0.0):
    t = None
    for v in xs:
        t = v if t is None else t + v
    return zero if t is None else t


def var_(xs):
    xs = list(xs)
    m = mean_(xs)
    return mean_([(v - m) * (v - m) for v in xs])


def sorted_assume(ctx, x):
    for i in range(len(x) - 1):
        ctx.assume(x[i], "<=", x[i + 1])


def dot_(a, b):
    return sum_([x * y for x, y in zip(a, b)])


def cov_(rows, ddof=1):
    """covariance matrix (list of lists) and mean of a list of row vectors"""
    n = len(rows)
    p = len(rows[0])
    mu = [mean_([r[j] for r in rows]) for j in range(p)]
    C = [[sum_([(r[a] - mu[a]) * (r[b] - mu[b]) for r in rows]) / (n - ddof) for b in range(p)] for a in range(p)]
    return mu, C


def det_(M):
    if len(M) == 1:
        return M[0][0]
    if len(M) == 2:
        return M[0][0] * M[1][1] - M[0][1] * M[1][0]
    t = None
    for j in range(len(M)):
        minor = [r[:j] + r[j + 1:] for r in M[1:]]
        v = M[0][j] * det_(minor)
        if j % 2:
            v = -v
        t = v if t is None else t + v
    return t


def adj_(M):
    """adjugate"""
    n = len(M)
    if n == 1:
        return [[1.0]]
    out = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            minor = [r[:j] + r[j + 1:] for k, r in enumerate(M) if k != i]
            v = det_(minor)
            out[j][i] = -v if (i + j) % 2 else v
    return out


def quad_(v, M):
    return sum_([v[a] * M[a][b] * v[b] for a in range(len(v)) for b in range(len(v))])


def maha2_(x, mu, C):
    """squared Mahalanobis distance via adjugate / determinant"""
    d = [a - b for a, b in zip(x, mu)]
    return quad_(d, adj_(C)) / det_(C)


def rows_(X):
    return [list(r) for r in X]


def below_(ctx, a, b, rel=1e-9):
    """a < b for b >= 0, away from the knife edge (a different rounding of the cutoff may decide that either way)"""
    if ctx.if_(a, "<", b * (1 - rel)):
        return True
    if ctx.if_(a, ">", b * (1 + rel)):
        return False
    ctx.stop()
