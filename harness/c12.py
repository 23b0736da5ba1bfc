"""Size of the h-subset of the MCD and LTS estimators for every admissible alpha."""
import warnings

import numpy as np

from symrob.runner import Scenario

FUNCTIONS = ["covariance.mcd.FastMCD._get_h", "covariance.mcd.FastMCD.calculate_covariance", "covariance.mcd.DetMCD._get_h",
             "covariance.mcd.DetMCD.calculate_covariance", "regression.lts.FastLTSRegression.fit",
             "univariate.mcd.UnivariateMCD._set_h_size", "covariance.cellmcd.CellMCD._check_data"]
BOUNDS = ("alpha symbolic over the reals in [-1, 3] (floats) or every integer from 0 to n+2; n = 7, 8 (p=2), n = 9 (p=3), one to two "
          "partitions; concrete data")
BUDGET = 60
D = np.array([[2, 9], [18, -6], [-10, 3], [7, 21], [-3, -15], [11, 2], [25, 14], [-21, 6], [4, -4], [8, 12], [-7, -8], [16, 5]]) / 8
D3 = np.column_stack([D, np.array([6, -2, 11, 1, -13, 19, -7, 4, 14, -18, 3, -5]) / 8])


def data(n, p):
    return (D if p == 2 else D3)[:n]


def hmin(n, p):
    return (n + p + 1) // 2


def want(ctx, a, n, p):
    """documented h for a float alpha: integer part of alpha*n, at least [(n+p+1)/2]"""
    h = hmin(n, p)
    while h < n and ctx.if_(a * n, ">=", h + 1):
        h += 1
    return h


def float_alpha(ctx, est, n, p, **k):
    a = ctx.real("alpha", lo=-1, hi=3)
    if not ctx.symbolic:
        a = float(a)
    X = ctx.array(data(n, p))
    inside = ctx.if_(a, ">=", 0.5) and ctx.if_(a, "<=", 1)
    run(ctx, est, a, X, n, p, inside, lambda: n if ctx.if_(a, "==", 1) else want(ctx, a, n, p), k)


def int_alpha(ctx, est, n, p, **k):
    a = ctx.choose(n + 3)
    if est in ("FastLTS", "UnivariateMCD") or a == 1:
        ctx.stop()
    X = ctx.array(data(n, p))
    run(ctx, est, a, X, n, p, 2 * a >= n and a <= n, lambda: max(a, hmin(n, p)), k)


def none_alpha(ctx, est, n, p, **k):
    X = ctx.array(data(n, p))
    run(ctx, est, None, X, n, p, True, lambda: hmin(n, p), k)


def run(ctx, est, a, X, n, p, inside, h, k):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            size, cov = fit(ctx, est, a, X, k)
    except ValueError:
        ctx.check(not inside, "an admissible alpha is accepted")
        return
    ctx.check(inside, "an inadmissible alpha is rejected with ValueError")
    if not inside:
        return
    h = h()
    if size is None:  # classical estimate
        ctx.check(h == n, "the classical estimate is returned only for h = n")
    else:
        ctx.check(size == h, "the h-subset has max(int(alpha*n), [(n+p+1)/2]) distinct observations")
    if h == n and cov is not None:
        C = np.cov(np.array(data(n, p)), rowvar=False)
        ctx.check(ctx.eq_arr(cov, C), "with h = n the raw estimate is the classical covariance")


def fit(ctx, est, a, X, k):
    if est == "FastLTS":
        from robpy.regression.lts import FastLTSRegression

        e = FastLTSRegression(alpha=a, n_initial_subsets=2, n_best_models=1, **k).fit(X[:, :1], X[:, 1], verbosity=50)
        return len(set(int(i) for i in e.best_h_subset)), None
    from robpy.covariance import mcd

    if est == "FastMCD":
        e = mcd.FastMCD(alpha=a, n_initial_subsets=k.get("n_partitions", 1) * 2, n_best_subsets=1, reweighting=False,
                        correct_covariance=False, random_seed=3, verbosity=50, **k).fit(X)
    else:
        e = mcd.DetMCD(alpha=a, reweighting=False, correct_covariance=False, verbosity=50).fit(X)
    if not hasattr(e, "best_subset"):
        return None, e.covariance_
    return len(set(int(i) for i in e.best_subset.indices)), e.covariance_


def lts_alpha(ctx, n):
    """LTS: p counts the slopes only"""
    a = ctx.real("alpha", lo=-1, hi=3)
    X = ctx.array(data(n, 2))
    inside = ctx.if_(a, ">=", 0.5) and ctx.if_(a, "<=", 1)
    run(ctx, "FastLTS", a, X, n, 1, inside, lambda: want(ctx, a, n, 1), {})


def uni_alpha(ctx, n, integer):
    from robpy.univariate import UnivariateMCD

    x = ctx.array(data(n, 2)[:, 0])
    if integer:
        a = ctx.choose(n + 3)
        if a == 1:
            ctx.stop()
        inside = n // 2 + 1 <= a <= n
    else:
        a = ctx.real("alpha", lo=-1, hi=3)
        inside = ctx.if_(a, ">=", 0.5) and ctx.if_(a, "<=", 1)
    try:
        e = UnivariateMCD(alpha=a, consistency_correction=False).fit(x)
    except ValueError:
        ctx.check(not inside, "an admissible alpha is accepted")
        return
    if integer:
        ctx.check(n // 2 <= a <= n, "an inadmissible alpha is rejected with ValueError")
    else:
        ctx.check(inside, "an inadmissible alpha is rejected with ValueError")
    if inside:
        h = a if integer else (n if ctx.if_(a, "==", 1) else max(n // 2 + 1, want(ctx, a, n, 0)))
        ctx.check(e.h_size == h, "the h-subset has max(int(alpha*n), [n/2]+1) observations")


def scenarios(tier):
    S = Scenario
    out = []
    for est in ("FastMCD", "DetMCD"):
        for n, p in ((8, 2), (9, 3)) + (((11, 2),) if tier != "quick" else ()):
            out.append(S(f"{est} n={n} p={p} float alpha", float_alpha, dict(est=est, n=n, p=p)))
            out.append(S(f"{est} n={n} p={p} integer alpha", int_alpha, dict(est=est, n=n, p=p)))
            out.append(S(f"{est} n={n} p={p} default alpha", none_alpha, dict(est=est, n=n, p=p)))
    out.append(S("FastMCD two partitions float alpha", float_alpha, dict(est="FastMCD", n=12, p=2, n_partitions=2)))
    out.append(S("FastMCD two partitions integer alpha", int_alpha, dict(est="FastMCD", n=12, p=2, n_partitions=2)))
    out.append(S("FastLTS n=8 float alpha", lts_alpha, dict(n=8)))
    out.append(S("FastLTS n=9 float alpha", lts_alpha, dict(n=9)))
    out.append(S("UnivariateMCD n=7 float alpha", uni_alpha, dict(n=7, integer=False)))
    out.append(S("UnivariateMCD n=8 integer alpha", uni_alpha, dict(n=8, integer=True)))
    return out
