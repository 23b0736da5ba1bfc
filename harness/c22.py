"""FastLTS: C-steps, convergence, selection of the best start, scale and reweighting."""
import logging

import numpy as np
from scipy import stats

from symrob.runner import Scenario
from harness.common import adj_, det_, mean_, sum_

FUNCTIONS = ["regression.lts.FastLTSRegression.fit", "regression.lts.FastLTSRegression._apply_initial_C_steps",
             "regression.lts.FastLTSRegression._apply_C_step", "regression.lts.FastLTSRegression._apply_C_steps_untill_convergence",
             "regression.lts.FastLTSRegression._get_h_subset", "regression.lts.FastLTSRegression._get_loss_value",
             "regression.lts.FastLTSRegression._get_initial_model", "regression.lts.FastLTSRegression.predict"]
STUBS = ["sklearn LinearRegression: exact (weighted) least squares", "random generator: the real numpy generator (concrete seeds), with the "
         "drawn initial subsets recorded"]
BOUNDS = ("n=7..9, p=1, 2: one response or one feature value free in [-1000, 1000], the others concrete, 2-4 starts; n=20..30, p=1..3: "
          "every shift of the responses of concrete samples with outliers, 8-12 starts, three values of alpha, with and without reweighting")
BUDGET = 60
X1 = [0.0, 1.0, 2.5, 3.0, 4.5, 5.0, 6.25, 7.5, 8.0]
X2 = [1.0, -0.5, 2.0, 0.25, -1.5, 3.0, -2.25, 0.5, 1.75]
Y = [0.25, 1.5, 2.25, 3.5, 9.0, 4.75, 6.5, -3.0, 8.25]


def recorder(log):
    """stand-ins for np.random.choice, RandomState and default_rng that hand out the same numbers and record the index sets chosen"""
    base = np.random.RandomState
    choice, real = np.random.choice, np.random.default_rng

    def keep(r):
        log.append([int(i) for i in np.array(r).reshape(-1)])
        return r

    class State(base):
        def choice(self, *a, **k):
            return keep(base.choice(self, *a, **k))

    class Gen(np.random.Generator):
        def choice(self, *a, **k):
            return keep(np.random.Generator.choice(self, *a, **k))

    class R:
        pass

    R.choice = staticmethod(lambda *a, **k: keep(choice(*a, **k)))
    R.RandomState = State
    R.default_rng = staticmethod(lambda seed=None: seed if isinstance(seed, np.random.Generator) else Gen(real(seed).bit_generator))
    return R


def record(ctx):
    log = []
    R = recorder(log)
    if ctx.symbolic:
        from symrob import patch

        patch.RNG = R

        def undo():
            patch.RNG = None
    else:
        real = {n: getattr(np.random, n) for n in ("choice", "RandomState", "default_rng")}
        for n in real:
            setattr(np.random, n, getattr(R, n))

        def undo():
            for n, v in real.items():
                setattr(np.random, n, v)

    ctx.cleanup.append(undo)
    return log, undo


def ls(rows, y, idx, w=None):
    """least squares with intercept: coefficients (intercept first); None if singular is left to the caller"""
    Z = [[1] + list(r) for r in rows]
    q = len(Z[0])
    w = w or {i: 1 for i in idx}
    G = [[sum_([w[i] * Z[i][a] * Z[i][b] for i in idx]) for b in range(q)] for a in range(q)]
    g = [sum_([w[i] * Z[i][a] * y[i] for i in idx]) for a in range(q)]
    d = det_(G)
    A = adj_(G)
    return d, lambda: [sum_([A[a][b] * g[b] for b in range(q)]) / d for a in range(q)]


def fitted(beta, r):
    return sum_([b * v for b, v in zip(beta[1:], r)]) + beta[0]


def loss(rows, y, idx, beta):
    return mean_([(y[i] - fitted(beta, rows[i])) * (y[i] - fitted(beta, rows[i])) for i in idx])


def fit(ctx, rows, y, idx):
    d, f = ls(rows, y, idx)
    if ctx.if_(d, "==", 0):
        ctx.stop()
    return f()


def c_step(ctx, rows, y, beta, h):
    """the h observations with the smallest absolute residuals"""
    r2 = [(y[i] - fitted(beta, rows[i])) * (y[i] - fitted(beta, rows[i])) for i in range(len(y))]
    out = []
    for i in range(len(y)):
        k = len(out)
        while k > 0 and ctx.if_(r2[out[k - 1]], ">", r2[i]):
            k -= 1
        out.insert(k, i)
    if h < len(out) and ctx.if_(r2[out[h - 1]], "==", r2[out[h]]):
        ctx.stop()
    return out[:h]


def h_of(n, p, alpha):
    return max(int(n * alpha), (n + p + 1) // 2)


def oracle(ctx, e, log, rows, y, alpha, n_init, n_best, steps, rw, w0=None):
    from robpy.regression import lts

    n, p = len(y), len(rows[0])
    h = h_of(n, p, alpha)
    idx = getattr(e, "best_h_subset", None)
    if idx is None:
        return
    idx = [int(i) for i in idx]
    ctx.check(len(idx) == h and len(set(idx)) == h, "the selected subset has h distinct observations")
    beta = fit(ctx, rows, y, idx)
    L = loss(rows, y, idx, beta)
    pred = np.asarray(e.predict(ctx.array(rows))).reshape(-1)
    f0 = lts.get_correction_factor(p=p, n=n, alpha=alpha)
    if not rw:
        ctx.check(ctx.all([ctx.eq(pred[i], fitted(beta, rows[i])) for i in range(n)]), "the raw model is least squares on the selected subset")
        ctx.check(ctx.eq(e.scale * e.scale, L * (f0 * f0), 1e-5) & ctx.ge(e.scale, 0), "the raw scale is the corrected root mean square residual of the subset")
    else:
        q = float(stats.norm.ppf((h + n) / (2 * n)))
        c2 = 1 / (1 - 2 * n / h * q * float(stats.norm.pdf(q))) if h < n else 1.0
        cut = L * (f0 * f0 * c2 * float(stats.norm.ppf(0.9875)) ** 2)
        keep = []
        for i in range(n):
            r = y[i] - fitted(beta, rows[i])
            if ctx.if_(r * r, "<=", cut * (1 - 1e-9)):
                keep.append(i)
            elif not ctx.if_(r * r, ">", cut * (1 + 1e-9)):
                ctx.stop()
        ctx.check(len(keep) >= h / 2, "reweighting keeps observations")
        b2 = fit(ctx, rows, y, keep)
        ctx.check(ctx.all([ctx.eq(pred[i], fitted(b2, rows[i]), 1e-5) for i in range(n)]),
                  "the reweighted model is least squares on the observations within the cutoff")
        f1 = lts.get_correction_factor_reweighting(p=p, n=n, alpha=alpha)
        ctx.check(ctx.eq(e.scale * e.scale, loss(rows, y, keep, b2) * (f1 * f1), 1e-5), "the scale is the corrected root mean square residual of the kept observations")
    nxt = c_step(ctx, rows, y, beta, h)
    if set(nxt) != set(idx):
        ctx.check(ctx.ge(loss(rows, y, nxt, fit(ctx, rows, y, nxt)), L, 1e-6), "converged: one more C-step does not lower the objective")
    starts = [s for s in log if len(s) == p + 1]
    ctx.check(len(starts) == n_init and all(len(set(s)) == p + 1 for s in starts), "every requested start draws p+1 distinct observations")
    cand = []
    for s in starts:
        if w0 is not None:
            b = w0
        else:
            d, f = ls(rows, y, s)
            if ctx.if_(d, "==", 0):
                continue
            b = f()
        for _ in range(steps):
            s = c_step(ctx, rows, y, b, h)
            b = fit(ctx, rows, y, s)
        cand.append((loss(rows, y, s, b), s, b))
    for v, s, b in cand:
        ctx.check(ctx.le(L, v, 1e-6), "no start has a smaller objective after its initial C-steps than the selected subset")
    if n_best < len(cand):
        cand = [c for c in cand if sum(1 for o in cand if ctx.if_(o[0], "<", c[0])) < n_best]
    for v, s, b in cand:
        for _ in range(30):
            t = c_step(ctx, rows, y, b, h)
            if set(t) == set(s):
                break
            s = t
            b = fit(ctx, rows, y, s)
        ctx.check(ctx.le(L, loss(rows, y, s, b), 1e-6), "no kept start has a smaller objective at convergence than the selected subset")


def cell(ctx, n, p, y_free=None, x_free=None, n_init=2, n_best=10, alpha=0.5, rw=False, seed=42, lim=1000, w0=None):
    from robpy.regression import FastLTSRegression

    rows = [[ctx.const(v) for v in ((X1[i],) if p == 1 else (X1[i], X2[i]))] for i in range(n)]
    y = [ctx.const(v) for v in Y[:n]]
    z = ctx.real("z", lo=-lim, hi=lim)
    if y_free is not None:
        y[y_free] = z
    else:
        rows[x_free[0]][x_free[1]] = z
    kw = {} if w0 is None else dict(initial_weights=np.array(w0))
    log, undo = record(ctx)
    try:
        e = FastLTSRegression(alpha=alpha, n_initial_subsets=n_init, n_best_models=n_best, n_initial_c_steps=1, reweighting=rw,
                              random_state=seed).fit(ctx.array(rows), ctx.array(y), verbosity=logging.CRITICAL, **kw)
    finally:
        undo()
    oracle(ctx, e, log, rows, y, alpha, n_init, n_best, 1, rw, None if w0 is None else [ctx.const(v) for v in w0])


def xy(n, p, seed):
    """regression sample with vertical outliers and bad leverage points, dyadic values"""
    g = np.random.default_rng(seed)
    X = g.integers(-40, 41, (n, p)) / 8
    y = X @ np.arange(1, p + 1) + g.integers(-16, 17, n) / 16
    y[:n // 5] += 15
    X[n // 5:n // 4, 0] += 30
    return X, y


def moved(ctx, n, p, seed, alpha, rw, n_init=8, n_best=3, steps=2):
    from robpy.regression import FastLTSRegression

    X, y = xy(n, p, seed)
    b = ctx.real("b", lo=-1000, hi=1000)
    rows = [[ctx.const(float(v)) for v in r] for r in X]
    y = [ctx.const(float(v)) + b for v in y]
    log, undo = record(ctx)
    try:
        e = FastLTSRegression(alpha=alpha, n_initial_subsets=n_init, n_best_models=n_best, n_initial_c_steps=steps, reweighting=rw,
                              random_state=seed).fit(ctx.array(rows), ctx.array(y), verbosity=logging.ERROR)
    finally:
        undo()
    oracle(ctx, e, log, rows, y, alpha, n_init, n_best, steps, rw)


def scenarios(tier):
    S = Scenario
    out = [S("free response n=7 p=1", cell, dict(n=7, p=1, y_free=3, n_init=2)),
           S("free response n=8 p=1 one kept", cell, dict(n=8, p=1, y_free=6, n_init=3, n_best=1, seed=7)),
           S("free response n=9 p=1 alpha=0.75", cell, dict(n=9, p=1, y_free=2, n_init=2, alpha=0.75)),
           S("free feature n=7 p=1", cell, dict(n=7, p=1, x_free=(4, 0), n_init=2)),
           S("free response n=8 p=2", cell, dict(n=8, p=2, y_free=5, n_init=2, seed=3)),
           S("free response n=8 p=1 reweighted", cell, dict(n=8, p=1, y_free=4, n_init=2, rw=True)),
           S("free response n=8 p=1 given weights", cell, dict(n=8, p=1, y_free=7, n_init=1, w0=[0.5, 0.75])),
           S("free response n=7 p=1 alpha=1", cell, dict(n=7, p=1, y_free=0, n_init=1, alpha=1.0)),
           S("free response n=7 p=1 alpha=1 reweighted", cell, dict(n=7, p=1, y_free=2, n_init=1, alpha=1.0, rw=True)),
           S("free response n=9 p=2 reweighted", cell, dict(n=9, p=2, y_free=1, n_init=2, rw=True))]
    for k in range(8 if tier == "quick" else 24):
        out.append(S(f"every shift, sample {k}", moved, dict(n=20 + 2 * k % 12, p=1 + k % 3, seed=k, alpha=(0.5, 0.75, 0.9)[k % 3 if k < 3 else (k + 1) % 3],
                                                             rw=bool(k % 2), n_best=(8, 3, 1)[k // 2 % 3]), prec=256))
    return out
