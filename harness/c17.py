"""RobustCovariance.fit: what every multivariate estimator stores, rejects and leaves alone."""
import numpy as np

from symrob.runner import Scenario
from harness.common import cov_, maha2_

FUNCTIONS = ["covariance.base.RobustCovariance.fit", "covariance.base.RobustCovariance.covariance",
             "covariance.base.RobustCovariance.correlation", "utils.distance.mahalanobis_distance"]
BOUNDS = ("n=4..5, p=2: all data of one or two free cells in [-1000, 1000], the estimator's own scatter matrix and location symbolic or "
          "concrete; n=8, p=1 with one free observation for every estimator; every position of one NaN or infinity for every estimator")
STUBS = ["sklearn validation and storage of the matrix: exact stand-ins with the same checks"]
BUDGET = 40
B = [[1.0, 2.5], [-0.5, 0.25], [3.0, -1.0], [0.75, 4.0], [-2.0, 1.5]]


def data(ctx, n, free):
    return ctx.array([[ctx.real(f"x{i}{j}", lo=-1000, hi=1000) if (i, j) in free else ctx.const(B[i][j]) for j in range(2)] for i in range(n)])


def fitted(ctx, n, free, frame, loc, sym, store=True):
    from robpy.covariance.base import RobustCovariance

    X = data(ctx, n, free)
    rows = [list(r) for r in X]
    if sym:
        a, d = ctx.real("a", lo=0.01, hi=100), ctx.real("d", lo=0.01, hi=100)
        C = [[a, ctx.const(0.0)], [ctx.const(0.0), d]]
    else:
        C = [[ctx.const(2.0), ctx.const(0.5)], [ctx.const(0.5), ctx.const(1.25)]]
    m = [ctx.real("m", lo=-100, hi=100) if loc == "sym" else ctx.const(0.5), ctx.const(-1.0)]

    class Est(RobustCovariance):
        def calculate_covariance(self, X):
            if loc:
                self.location_ = ctx.array(m)
            return ctx.array(C)

    e = Est(store_precision=store)
    try:
        e.covariance
        ctx.check(False, "covariance is unavailable before fitting")
    except Exception as x:
        ctx.check(type(x).__name__ == "NotFittedError", "covariance is unavailable before fitting")
    arg = ctx.frame(X, ["u", "v"]) if frame else X
    mu, S = cov_(rows)
    if ctx.if_(S[0][0] * S[1][1] - S[0][1] * S[0][1], "==", 0):
        ctx.stop()
    r = e.fit(arg)
    ctx.check(r is e, "fit returns the estimator")
    if not loc:
        m = mu
    R2 = range(2)
    ctx.check(ctx.all([ctx.eq(e.covariance_[i, j], C[i][j]) for i in R2 for j in R2]), "covariance_ is the estimated scatter")
    ctx.check(ctx.all([ctx.eq(e.covariance[i, j], C[i][j]) for i in R2 for j in R2]), "covariance is the estimated scatter")
    ctx.check(ctx.all([ctx.eq(e.location_[j], m[j]) for j in R2]), "location_ is the estimated location (the mean if the estimator sets none)")
    if store:
        P = e.precision_
        I = [[sum((P[i, k] * C[k][j] for k in (1,)), P[i, 0] * C[0][j]) for j in R2] for i in R2]
        ctx.check(ctx.all([ctx.eq(I[i][j], 1.0 if i == j else 0.0) for i in R2 for j in R2]), "precision_ is the inverse of the scatter")
    d = getattr(e, "_robust_distances", None)
    if d is not None:
        ctx.check(ctx.all([ctx.eq(d[i] * d[i], maha2_(rows[i], m, C), 1e-5) for i in range(n)]),
                  "robust distances use the robust location and scatter")
    d = getattr(e, "_mahalanobis_distances", None)
    if d is not None:
        ctx.check(ctx.all([ctx.eq(d[i] * d[i], maha2_(rows[i], mu, S), 1e-5) for i in range(n)]),
                  "non-robust distances use the classical mean and covariance")
    d = getattr(e, "default_covariance_", None)
    if d is not None:
        ctx.check(ctx.all([ctx.eq(d[i, j], S[i][j], 1e-5) for i in R2 for j in R2]), "default covariance is the classical one")
    ctx.check(ctx.all([ctx.eq(X[i, j], rows[i][j], 0) for i in range(n) for j in R2]), "input unchanged")


def rejects(ctx, est, what):
    from robpy import covariance as cv

    n = 7
    i, j = ctx.choose(n), ctx.choose(2)
    base = (B + [[0.5, -2.5], [2.25, 0.75]])[:n]
    bad = float(what)
    X = ctx.array([[bad if (a, b) == (i, j) else ctx.const(base[a][b]) for b in range(2)] for a in range(n)])
    frame = ctx.choose(2)
    kw = dict(n_initial_subsets=3, random_seed=1) if est == "FastMCD" else {}
    e = getattr(cv, est)(**kw)
    try:
        e.fit(ctx.frame(X, ["u", "v"]) if frame else X)
    except ValueError:
        ctx.check(True, "a missing or infinite cell is rejected with ValueError")
        return
    ctx.check(False, "a missing or infinite cell is rejected with ValueError")


def onedim(ctx, est):
    from robpy import covariance as cv

    try:
        getattr(cv, est)().fit(ctx.array([ctx.real("x", lo=-9, hi=9)] + [ctx.const(v) for v in (1.0, 2.5, -3.0, 0.5)]))
        ok = False
    except (ValueError, IndexError):
        ok = True
    ctx.check(ok, "one-dimensional input is rejected")


def one_column(ctx, est, i):
    """a single variable: 1x1 scatter, finite and positive, distances |x - m| / s"""
    from robpy import covariance as cv

    base = [1.0, 2.5, -0.5, 0.25, 3.0, 2.0, -1.75, 0.875]
    x = ctx.real("x", lo=-1000, hi=1000)
    col = [x if k == i else ctx.const(v) for k, v in enumerate(base)]
    X = ctx.array([[v] for v in col])
    kw = dict(n_initial_subsets=3, random_seed=1) if est == "FastMCD" else {}
    e = getattr(cv, est)(**kw).fit(X)
    ctx.check(np.shape(e.covariance_) == (1, 1) and np.shape(e.covariance) == (1, 1), "one variable: the scatter is a 1x1 matrix")
    c, m = e.covariance_[0, 0], np.asarray(e.location_, dtype=object).reshape(-1)[0]
    ctx.check(ctx.finite(c), "one variable: finite scatter")
    ctx.check(ctx.gt(c, 0), "one variable: positive scatter")
    ctx.check(ctx.finite(m), "one variable: finite location")
    if est not in ("KendallTau", "WrappingCovariance"):
        ctx.check(ctx.ge(m, -1.75) & ctx.le(m, 3.0), "one variable: one outlier does not carry the location away")
    d = getattr(e, "_robust_distances", None)
    if d is not None:
        ctx.check(ctx.all([ctx.eq(d[k] * d[k] * c, (col[k] - m) * (col[k] - m), 1e-4) for k in (0, 4)]),
                  "one variable: distances are standardised deviations")


def scenarios(tier):
    S = Scenario
    ests = ["FastMCD", "DetMCD", "OGK", "WrappingCovariance", "KendallTau"]
    out = [S("stored results, own location", fitted, dict(n=4, free=[(1, 0)], frame=False, loc="const", sym=False)),
           S("stored results, mean as location", fitted, dict(n=4, free=[(2, 1)], frame=False, loc=None, sym=False)),
           S("stored results, symbolic location", fitted, dict(n=4, free=[], frame=False, loc="sym", sym=False)),
           S("stored results, symbolic scatter", fitted, dict(n=4, free=[], frame=False, loc="const", sym=True)),
           S("stored results, DataFrame", fitted, dict(n=5, free=[(3, 0)], frame=True, loc="const", sym=False)),
           S("stored results, no precision", fitted, dict(n=4, free=[(0, 0)], frame=False, loc="const", sym=False, store=False))]
    for e in ests:
        for w in ("nan", "inf"):
            out.append(S(f"{e} rejects {w}", rejects, dict(est=e, what=w)))
        out.append(S(f"{e} one variable", one_column, dict(est=e, i=2)))
        out.append(S(f"{e} rejects vectors", onedim, dict(est=e)))
    return out
