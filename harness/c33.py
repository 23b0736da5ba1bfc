"""DDC on new data: predictions leave the cell out, flags, imputation."""
import numpy as np
from scipy import stats

from symrob.runner import Scenario
from harness.c32 import HOLES, Ref, ddc, sample

FUNCTIONS = ["outliers.ddc.DDC.predict", "outliers.ddc.DDC.impute", "outliers.ddc.DDC.fit"]
STUBS = ["pandas frames of symbolic cells: replace, nunique and isna on such cells; everything else is pandas", "chi-square distribution function: increasing function",
         "rounding of imputed values: any number within half a unit of the third decimal"]
BOUNDS = ("fits on concrete samples (n=14..18, p=2..4, missing and outlying cells); 1-3 new rows with up to two free cells in [-1000, 1000], "
          "the others concrete, missing or infinite; several quantiles and minimal correlations")
BUDGET = 90
NAN, INF = float("nan"), float("inf")
ROWS = [[0.7, 0.9, -0.8, 1.1], [-6.5, 0.4, 0.3, -0.7], [1.9, 2.2, -1.6, 0.4], [-0.3, 7.0, 0.1, 0.2]]


def fitted(ctx, n, p, holes, quantile, mincor):
    base = sample(n, p, HOLES[holes])
    m = ddc(chi2_quantile=quantile, min_correlation=mincor)
    m.fit(ctx.frame([[ctx.const(v) if np.isfinite(v) else v for v in r] for r in base], list("abcd"[:p])))
    return m, Ref(base, quantile, mincor)




def near(ctx, a, b, rel=1e-7):
    """a > b for b > 0, away from the knife edge"""
    if ctx.if_(a, ">", b * (1 + rel)):
        return True
    if ctx.if_(a, "<", b * (1 - rel)):
        return False
    ctx.stop()


def mag(ctx, v):
    return v if ctx.if_(v, ">=", 0) else -v


def model(ctx, R, rows):
    """own predictions for new rows (None: missing): predictions, standardized residuals, flags of cells and rows"""
    p = len(R.loc)
    P, S, C, W = [], [], [], []
    for r in rows:
        z = [None if v is None else (v - R.loc[j]) / R.scale[j] for j, v in enumerate(r)]
        u = [None if v is None or near(ctx, mag(ctx, v), R.cut) else v for v in z]
        pred, res, fl = [], [], []
        for i in range(p):
            num, den = 0.0, 0.0
            for j in range(p):
                w = abs(R.corr[i, j])
                if j != i and w >= R.mincor and u[j] is not None:
                    num, den = num + w * R.slopes[j, i] * u[j], den + w
            pred.append(num / den * R.desh[i] if den else 0.0)
            res.append(None if z[i] is None else (z[i] - pred[i]) / R.rscale[i])
            fl.append(False if z[i] is None else near(ctx, mag(ctx, res[i]), R.cut))
        t = [ctx.cdf(stats.chi2, v * v, 1) for v in res if v is not None]
        W.append((sum(t[1:], t[0]) / len(t) - R.tl) / R.ts if t else None)
        P.append(pred)
        S.append(res)
        C.append(fl)
    return P, S, C, W


def new_rows(ctx, p, free, holes, k, source=ROWS):
    raw, rows = [], []
    for i in range(k):
        raw.append([ctx.real(f"x{i}{j}", lo=-1000, hi=1000) if (i, j) in free else holes.get((i, j), source[i][j]) for j in range(p)])
        rows.append([None if isinstance(v, float) and not np.isfinite(v) else v for v in raw[-1]])
        raw[-1] = [ctx.const(v) if isinstance(v, float) and np.isfinite(v) else v for v in raw[-1]]
    return raw, rows


def same(ctx, a, v):
    if isinstance(v, float) and not np.isfinite(v):
        return ctx.is_nan(a) if np.isnan(v) else ctx.is_inf(a)
    return ctx.eq(a, v)


def new(ctx, n, p, holes, free, cells=None, k=1, quantile=0.99, mincor=0.5, what="cells"):
    m, R = fitted(ctx, n, p, holes, quantile, mincor)
    if k == n:  # as many rows as the training data: the same ones but for the free and given cells
        raw, rows = new_rows(ctx, p, free, cells or {}, k, [list(map(float, r)) for r in sample(n, p, HOLES[holes])])
    else:
        raw, rows = new_rows(ctx, p, free, cells or {}, k)
    idx = [f"r{i}" for i in range(k)]
    X = ctx.frame(raw, list("abcd"[:p]), idx)
    P, S, C, W = model(ctx, R, rows)
    if what == "cells":
        cells_, res = m.predict(X)
        cells_, res = np.asarray(cells_), np.asarray(res)
        ctx.check(cells_.shape == (k, p) and res.shape == (k, p), "one flag and residual per cell")
        ctx.check(ctx.all([ctx.is_nan(res[i, j]) if S[i][j] is None else ctx.eq(res[i, j], S[i][j], 1e-6) for i in range(k) for j in range(p)]),
                  "residual from the prediction by the other cells of the row, in units of the fit")
        ctx.check([[bool(v) for v in r] for r in cells_] == C, "cells beyond the cutoff are flagged")
    elif what == "rows":
        r = np.asarray(m.predict(X, rowwise=True))
        ctx.check(r.shape == (k,), "one flag per row")
        for i in range(k):
            if W[i] is None:
                continue
            flag = near(ctx, W[i], R.cut)
            ctx.check(bool(r[i]) == flag, "rows beyond the cutoff are flagged")
    else:
        for outl in (True, False):
            out = m.impute(X, impute_outliers=outl)
            ctx.check(list(out.columns) == list("abcd"[:p]) and list(out.index) == idx, "labels are kept")
            V = np.asarray(out.values)
            for i in range(k):
                for j in range(p):
                    if rows[i][j] is None or (outl and C[i][j]):
                        e = P[i][j] * R.scale[j] + R.loc[j]
                        d = V[i, j] - e
                        ctx.check(ctx.le(d, 0.000501) & ctx.ge(d, -0.000501), "missing (and flagged) cells are replaced by their prediction, to three decimals")
                    else:
                        ctx.check(ctx.eq(V[i, j], rows[i][j], 1e-12), "all other cells are unchanged")
    V = np.asarray(X.values)
    ctx.check(ctx.all([same(ctx, V[i, j], raw[i][j]) for i in range(k) for j in range(p)]), "input unchanged")


def leave_out(ctx, n, p, holes, i):
    """the prediction of a cell does not depend on its own value, nor on other rows"""
    m, R = fitted(ctx, n, p, holes, 0.99, 0.5)
    a, b = ctx.real("a", lo=-1000, hi=1000), ctx.real("b", lo=-1000, hi=1000)
    r1, r2 = [ctx.const(v) for v in ROWS[0][:p]], [ctx.const(v) for v in ROWS[0][:p]]
    r1[i], r2[i] = a, b
    A = np.asarray(m.predict(ctx.frame([r1, ROWS[1][:p]], list("abcd"[:p])))[1])
    B = np.asarray(m.predict(ctx.frame([ROWS[2][:p], r2], list("abcd"[:p])))[1])
    ctx.check(ctx.eq((A[0, i] - B[1, i]) * R.rscale[i] * R.scale[i], a - b, 1e-6), "the prediction of a cell does not depend on its own value, nor on other rows")


def errors(ctx):
    x = ctx.real("x", lo=-10, hi=10)
    cols = ["a", "b"]
    X = ctx.frame([[x, 1.0], [2.0, 3.0]], cols)
    bad = 0
    for f in (lambda: ddc().predict(X), lambda: ddc().impute(X), lambda: ddc().predict(X, rowwise=True)):
        try:
            f()
        except ValueError:
            bad += 1
    ctx.check(bad == 3, "predicting and imputing before fitting raises ValueError")
    m, R = fitted(ctx, 14, 2, "clean", 0.99, 0.5)
    bad = 0
    Y = ctx.frame([[x, 1.0, 2.0], [2.0, 3.0, 1.0]], ["a", "b", "c"])
    for f in (lambda: m.predict(Y), lambda: m.impute(Y), lambda: m.predict(ctx.frame([[x]], ["a"]))):
        try:
            f()
        except ValueError:
            bad += 1
    ctx.check(bad == 3, "another number of columns raises ValueError")


def few(ctx):
    """columns of at most three different values are rejected"""
    v = [ctx.real(f"v{i}", lo=-10, hi=10) for i in range(3)]
    rows = [[v[i % 3], ctx.const(r[0])] for i, r in enumerate(sample(14, 2, {}))]
    try:
        ddc().fit(ctx.frame(rows, ["a", "b"]))
        ok = True
    except ValueError:
        ok = False
    ctx.check(not ok, "columns with at most three different values are rejected with ValueError")


def scenarios(tier):
    S = Scenario
    out = []
    for what in ("cells", "rows", "imputed"):
        out += [
            S(f"{what} p=2", new, dict(n=14, p=2, holes="cells", free=[(0, 0), (0, 1)], what=what)),
            S(f"{what} p=2, missing cell", new, dict(n=14, p=2, holes="missing", free=[(0, 0)], cells={(0, 1): NAN, (1, 0): INF, (2, 1): -INF}, k=3, what=what)),
            S(f"{what} p=3", new, dict(n=16, p=3, holes="missing", free=[(0, 0)], cells={(1, 0): NAN}, k=2, what=what)),
            S(f"{what} p=3, other row", new, dict(n=16, p=3, holes="missing", free=[(1, 2)], k=2, what=what)),
            S(f"{what} p=3, quantile", new, dict(n=16, p=3, holes="row", free=[(0, 1)], k=1, what=what, quantile=0.9)),
            S(f"{what} p=3, no columns", new, dict(n=16, p=3, holes="cells", free=[(0, 1)], cells={(0, 2): NAN}, k=1, what=what, mincor=0.999)),
            S(f"{what} p=2, as many rows as the training data", new, dict(n=14, p=2, holes="cells", free=[(6, 1)], cells={(3, 0): NAN}, k=14, what=what)),
            S(f"{what} p=4", new, dict(n=18, p=4, holes="cells", free=[(1, 1)], cells={(0, 3): NAN, (1, 0): NAN}, k=2, what=what)),
            S(f"{what} p=4, all columns", new, dict(n=18, p=4, holes="missing", free=[(0, 2)], k=1, what=what, mincor=0.0)),
        ]
        if tier == "thorough":
            out += [
                S(f"{what} p=3, two cells", new, dict(n=16, p=3, holes="missing", free=[(0, 0), (0, 2)], k=1, what=what)),
                S(f"{what} p=3, two rows", new, dict(n=16, p=3, holes="missing", free=[(0, 0), (1, 2)], cells={(2, 0): NAN}, k=3, what=what)),
                S(f"{what} p=4, two cells", new, dict(n=18, p=4, holes="missing", free=[(0, 2), (0, 3)], k=1, what=what, mincor=0.0)),
            ]
    out += [S("leave out p=2", leave_out, dict(n=14, p=2, holes="cells", i=0)), S("leave out p=3", leave_out, dict(n=16, p=3, holes="missing", i=1)),
            S("leave out p=4", leave_out, dict(n=18, p=4, holes="cells", i=3)),
            S("errors", errors, {}), S("few values", few, {}), ]
    for s in out:
        s.prec = 128
    return out
