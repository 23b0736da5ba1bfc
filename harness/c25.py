"""S-regression: M-scale, estimating equations, choice among the starts, prediction."""
import numpy as np

from symrob.runner import Scenario
from harness.c22 import fitted, ls, record, xy
from harness.common import mean_, sum_

FUNCTIONS = ["regression.s.SRegression.fit", "regression.s.SRegression._get_initial_models", "regression.s.SRegression._i_step",
             "regression.s.SRegression._get_scale", "regression.s.SRegression._converged", "regression.s.SRegression.predict",
             "utils.rho.TukeyBisquare.rho", "utils.rho.TukeyBisquare.psi", "utils.rho.Huber.rho", "utils.rho.Huber.psi"]
STUBS = ["statsmodels WLS: exact weighted least squares", "add_constant: exact stand-in", "constants of the iterations kept with 256 significant bits"]
BOUNDS = ("n=12..18, p=1..3, 2-5 starts (also on samples where they converge to different estimates, or change their order during the initial steps): every positive rescaling in [0.01, 1000] of the responses of concrete samples with outliers, one free response "
          "in [200, 10^6] outside the starts; scale iterated to convergence (and twice, the default)")
BUDGET = 120


def rho_(ctx, u2, c, kind):
    """rho of the squared scaled residual"""
    if kind == "huber":
        if ctx.if_(u2, "<=", c * c):
            return u2 / 2
        return ctx.sqrt(u2) * c - c * c / 2
    if ctx.if_(u2, "<=", c * c):
        return u2 / 2 - u2 * u2 / (2 * c * c) + u2 * u2 * u2 / (6 * c ** 4)
    return ctx.const(c * c / 6)


def w_(ctx, u2, c, kind):
    """psi(u)/u"""
    if kind == "huber":
        if ctx.if_(u2, "<=", c * c):
            return ctx.const(1)
        return c / ctx.sqrt(u2)
    if ctx.if_(u2, "<=", c * c):
        v = 1 - u2 / (c * c)
        return v * v
    return ctx.const(0)


def coefs(ctx, e, p):
    """intercept and slopes of a fitted regression, from its predictions"""
    T = ctx.array([[ctx.const(0.0)] * p] + [[ctx.const(1.0 if a == b else 0.0) for a in range(p)] for b in range(p)])
    v = np.asarray(e.predict(T)).reshape(-1)
    return [v[0]] + [v[j + 1] - v[0] for j in range(p)]


def equations(ctx, beta, s, rows, y, c, kind, unit, icpt=True, tol=1e-4):
    """weighted normal equations at the estimate"""
    r = [y[i] - fitted(beta, rows[i]) for i in range(len(y))]
    w = [w_(ctx, v * v / (s * s), c, kind) for v in r]
    for j in range(len(beta)):
        if j == 0 and not icpt:
            ctx.check(ctx.eq(beta[0], 0, tol), "no intercept")
            continue
        g = mean_([w[i] * r[i] * (1 if j == 0 else rows[i][j - 1]) for i in range(len(y))])
        ctx.check(ctx.le(g, unit * tol, 0) & ctx.ge(g, -unit * tol, 0), "the estimate solves the weighted normal equations")
    return r


def fit_s(ctx, rows, y, kw, kind, c):
    from robpy.regression import SRegression
    from robpy.utils.rho import Huber, TukeyBisquare

    if kind == "huber":
        kw = dict(kw, rho=Huber(b=c))
    elif c != 1.547:
        kw = dict(kw, rho=TukeyBisquare(c=c))
    log, undo = record(ctx)
    try:
        return SRegression(**kw).fit(ctx.array(rows), ctx.array(y)), log
    finally:
        undo()


def verify(ctx, e, log, rows, y, b, c, kind, unit, icpt, n_init, converged=True):
    n, p = len(y), len(rows[0])
    beta = coefs(ctx, e, p)
    s = e.scale
    ctx.check(ctx.gt(s, 0), "positive scale")
    r = equations(ctx, beta, s, rows, y, c, kind, unit, icpt)
    m = mean_([rho_(ctx, v * v / (s * s), c, kind) for v in r])
    if converged:
        ctx.check(ctx.eq(m, b, 0.02 * b), "the scale is the M-scale of the residuals")
    else:
        ctx.check(ctx.eq(m, b, 0.1 * b), "the scale is close to the M-scale of the residuals")
    ctx.check(len(log) == n_init and all(len(set(t)) == len(t) for t in log), "every requested start draws distinct observations")
    cand = []
    for t in log:
        if icpt:
            d, f = ls(rows, y, t)
            if not ctx.if_(d, "==", 0):
                cand.append(f())
    if converged:
        for k in cand:
            m = mean_([rho_(ctx, (y[i] - fitted(k, rows[i])) * (y[i] - fitted(k, rows[i])) / (s * s), c, kind) for i in range(n)])
            ctx.check(ctx.ge(m, b, 0.02 * b), "no start has a smaller M-scale than the estimate")
    return beta


def scaled(ctx, n, p, seed, kw, c=1.547, b=0.1995, kind="tukey", icpt=True, converged=True):
    X, y = xy(n, p, seed)
    k = ctx.real("k", lo=1e-2, hi=1000)
    rows = [[ctx.const(float(v)) for v in r] for r in X]
    y = [ctx.const(float(v)) * k for v in y]
    kw = dict(dict(n_initial_subsets=3, n_best_subsets=3, random_state=seed), **kw)
    if converged:
        kw.update(max_scale_iterations=15 if c == 1.547 else 25, scale_tolerance=0.0, relative_tolerance=1e-5)
    e, log = fit_s(ctx, rows, y, kw, kind, c)
    verify(ctx, e, log, rows, y, b, c, kind, k, icpt, kw["n_initial_subsets"], converged)


def draws(seed, n, m, count):
    out = set()
    for s in range(seed, seed + count):
        out |= set(np.random.RandomState(s).choice(n, m, replace=False).tolist())
    return out


def outlier(ctx, n, p, seed, i=None):
    """one response anywhere far above the others: the same equations, and the estimate does not move"""
    X, y = xy(n, p, seed)
    st = seed
    while not set(range(n // 5)) - draws(st, n, p + 2, 2):
        st += 1
    i = min(set(range(n // 5)) - draws(st, n, p + 2, 2))
    z = ctx.real("z", lo=200, hi=1e6)
    rows = [[ctx.const(float(v)) for v in r] for r in X]
    y = [ctx.const(float(v)) for v in y]
    kw = dict(n_initial_subsets=2, n_best_subsets=2, random_state=st, max_scale_iterations=15, scale_tolerance=0.0, relative_tolerance=1e-5)
    e0, _ = fit_s(ctx, rows, y[:i] + [ctx.const(1e7)] + y[i + 1:], kw, "tukey", 1.547)
    y[i] = z
    e, log = fit_s(ctx, rows, y, kw, "tukey", 1.547)
    a, b = coefs(ctx, e0, p), coefs(ctx, e, p)
    ctx.check(ctx.all([ctx.eq(u, v, 1e-4) for u, v in zip(a, b)]) & ctx.eq(e0.scale, e.scale, 1e-4),
              "the size of a vertical outlier does not influence the estimate")
    beta = b
    equations(ctx, beta, e.scale, rows, y, 1.547, "tukey", 1)


def more_starts(ctx, n, p, seed):
    """more starts never give a larger scale"""
    X, y = xy(n, p, seed)
    k = ctx.real("k", lo=1e-2, hi=1000)
    rows = [[ctx.const(float(v)) for v in r] for r in X]
    y = [ctx.const(float(v)) * k for v in y]
    last = None
    for m in (1, 3):
        e, _ = fit_s(ctx, rows, y, dict(n_initial_subsets=m, n_best_subsets=m, random_state=seed, max_scale_iterations=15, scale_tolerance=0.0, relative_tolerance=1e-5),
                     "tukey", 1.547)
        if last is not None:
            ctx.check(ctx.le(e.scale, last * (1 + 1e-3), 1e-9), "more starts never give a larger scale")
        last = e.scale


def two_groups(s, n):
    """a minority on another line: the starts converge to different estimates"""
    rng = np.random.default_rng(s)
    x = np.round(rng.normal(size=n), 3)
    y = 2 * x + rng.normal(size=n) * 1.5
    k = int(0.4 * n)
    y[:k] = -3 * x[:k] + rng.normal(size=k)
    return x[:, None], np.round(y, 3)


def best_of(ctx, n, data, seed, m, steps=1):
    """no start, iterated on its own, ends at a smaller scale"""
    X, y = two_groups(data, n)
    k = ctx.real("k", lo=1e-2, hi=1000)
    rows = [[ctx.const(float(v)) for v in r] for r in X]
    y = [ctx.const(float(v)) * k for v in y]
    K = dict(n_initial_i_steps=steps, max_scale_iterations=10, scale_tolerance=0.0, relative_tolerance=1e-5)
    e, _ = fit_s(ctx, rows, y, dict(K, n_initial_subsets=m, n_best_subsets=m, random_state=seed), "tukey", 1.547)
    for r in range(seed, seed + m):
        a, _ = fit_s(ctx, rows, y, dict(K, n_initial_subsets=1, n_best_subsets=1, random_state=r), "tukey", 1.547)
        ctx.check(ctx.le(e.scale, a.scale * (1 + 1e-3), 1e-9), "no start converges to a smaller scale")


def fast_s(X, y, idx, steps, keep):
    """Fast-S (Salibian-Barrera and Yohai, 2006) from the given starts, in numbers: scale and coefficients"""
    c = 1.547

    def step(r):
        s = np.median(np.abs(r)) / 0.6745
        for _ in range(10):
            u = np.minimum(np.abs(r / s), c)
            s = s * np.sqrt(np.mean(u ** 2 / 2 - u ** 4 / (2 * c * c) + u ** 6 / (6 * c ** 4)) / 0.1995)
        w = np.where(np.abs(r / s) <= c, (1 - (r / s / c) ** 2) ** 2, 0)
        return np.linalg.solve((X.T * w) @ X, (X.T * w) @ y), s

    starts = []
    for i in idx:
        b = np.linalg.solve(X[i].T @ X[i], X[i].T @ y[i])
        for _ in range(steps):
            b, s = step(y - X @ b)
        starts.append((s, list(b)))
    best = []
    for _, b in sorted(starts)[:keep]:
        while True:
            b, a = step(y - X @ b), b
            b, s = b
            if np.linalg.norm(b - a) <= 1e-5 * np.linalg.norm(b):
                break
        best.append((s, list(b)))
    return min(best)


def kept(ctx, data, seed, m, steps, keep):
    """the starts with the smallest scales after the initial steps are the ones that are carried to convergence"""
    n = 12
    X, y = two_groups(data, n)
    k = ctx.real("k", lo=1e-2, hi=1000)
    rows = [[ctx.const(float(v)) for v in r] for r in X]
    e, log = fit_s(ctx, rows, [ctx.const(float(v)) * k for v in y],
                   dict(n_initial_i_steps=steps, max_scale_iterations=10, scale_tolerance=0.0, relative_tolerance=1e-5, n_initial_subsets=m, n_best_subsets=keep,
                        random_state=seed), "tukey", 1.547)
    idx = [np.asarray(t).astype(int) for t in log]
    ctx.check(len(idx) == m, "as many starts as requested")
    s, b = fast_s(np.column_stack([np.ones(n), X]), y, idx, steps, keep)
    ctx.check(ctx.eq(e.scale / k, s, 1e-3 * s), "scale of the best of the kept starts")
    ctx.check(ctx.all([ctx.eq(u / k, v, 2e-3) for u, v in zip(coefs(ctx, e, 1), b)]), "coefficients of the best of the kept starts")


def predicts(ctx, p, icpt):
    """prediction is linear in the features, for one row, constant columns and frames alike"""
    from robpy.regression import SRegression

    X, y = xy(14, p, 5)
    if p > 1 and icpt:
        X[:, 1] = 0.5  # a constant feature next to the intercept
    rows = [[ctx.const(float(v)) for v in r] for r in X]
    e = SRegression(n_initial_subsets=3, random_state=3, fit_intercept=icpt)
    try:
        e.predict(ctx.array(rows))
        ctx.check(False, "prediction before fitting raises NotFittedError")
    except Exception as x:
        ctx.check(type(x).__name__ == "NotFittedError", "prediction before fitting raises NotFittedError")
    e.fit(ctx.array(rows), ctx.array([ctx.const(float(v)) for v in y]))
    beta = coefs(ctx, e, p)
    x = [ctx.real(f"t{j}", lo=-100, hi=100) for j in range(p)]
    one = np.asarray(e.predict(ctx.array([x]))).reshape(-1)
    ctx.check(len(one) == 1, "one prediction for one row")
    ctx.check(ctx.eq(one[0], fitted(beta, x)), "prediction of a single row")
    two = np.asarray(e.predict(ctx.array([x, x]))).reshape(-1)
    ctx.check(ctx.eq(two[0], fitted(beta, x)) & ctx.eq(two[1], fitted(beta, x)), "prediction of equal rows")
    if p > 1:
        fr = np.asarray(e.predict(ctx.frame(ctx.array([x, rows[0]]), [f"c{j}" for j in range(p)]))).reshape(-1)
        ctx.check(ctx.eq(fr[0], fitted(beta, x)) & ctx.eq(fr[1], fitted(beta, rows[0])), "prediction of a frame")


def scenarios(tier):
    S = Scenario
    out = []
    K = dict(prec=128, path_timeout=60)
    for d, s, keep in ((1, 6, 1), (12, 4, 1), (15, 2, 1), (17, 5, 1), (9, 3, 1), (16, 4, 1), (9, 7, 2), (14, 3, 2))[:5 if tier == "quick" else 8]:
        out.append(S(f"kept starts, sample {d}/{s}", kept, dict(data=d, seed=s, m=4, steps=2, keep=keep), **K))
    for k in range(3 if tier == "quick" else 12):
        out.append(S(f"scaled responses, sample {k}", scaled, dict(n=12 + 2 * k, p=1 + k % 3, seed=k, kw={}), **K))
    out += [S("scaled responses, fewer kept", scaled, dict(n=16, p=2, seed=11, kw=dict(n_initial_subsets=5, n_best_subsets=1)), **K),
            S("scaled responses, default scale iterations", scaled, dict(n=18, p=2, seed=12, kw={}, converged=False), **K),
            S("scaled responses, no intercept", scaled, dict(n=15, p=2, seed=13, kw=dict(fit_intercept=False), icpt=False), **K),
            S("scaled responses, other tuning", scaled, dict(n=16, p=1, seed=14, kw=dict(b=0.75), c=3.0, b=0.75), **K),
            S("more starts", more_starts, dict(n=15, p=1, seed=21), **K), S("more starts p=2", more_starts, dict(n=18, p=2, seed=22), **K)]
    for k in range(2 if tier == "quick" else 8):
        out.append(S(f"free outlier, sample {k}", outlier, dict(n=12 + k, p=1 + k % 2, seed=30 + k), **K))
    for k, (d, s) in enumerate(((1, 5), (8, 1), (13, 1), (4, 9), (17, 5))[:3 if tier == "quick" else 5]):
        out.append(S(f"best of the starts, sample {k}", best_of, dict(n=12, data=d, seed=s, m=4), **K))
    for p in (1, 2):
        for ic in (True, False):
            out.append(S(f"prediction p={p} intercept={ic}", predicts, dict(p=p, icpt=ic), **K))
    return out
