"""RobustScaler: per-column centering and scaling, and its inverse."""
import numpy as np

from symrob.runner import Scenario
from harness.c04 import make

FUNCTIONS = ["preprocessing.scaling.RobustScaler.fit", "preprocessing.scaling.RobustScaler.transform",
             "preprocessing.scaling.RobustScaler.inverse_transform", "univariate.mcd.UnivariateMCD.fit", "univariate.onestep_m.OneStepM.fit",
             "univariate.qn.Qn.fit", "univariate.tau.Tau.fit"]
BOUNDS = "n=4..7, p=1..3: one fitted value free in [-1000, 1000], all points to transform (and transform back) free; six estimators, all switches"
BUDGET = 60
B = [[0.5, 2.0, -1.25], [1.75, -0.5, 3.0], [-2.25, 1.5, 0.25], [4.0, 0.125, -3.5], [0.25, 7.0, 2.5], [-1.5, -4.25, 0.75], [3.125, 0.75, -0.625]]


def scaler(ctx, est, n, p, free, centering=True, scaling=True, kind="array", nan=(), default=False):
    from robpy.preprocessing import RobustScaler

    rows = [[ctx.real(f"x{i}{j}", lo=-1000, hi=1000) if (i, j) in free else (float("nan") if (i, j) in nan else ctx.const(B[i][j])) for j in range(p)]
            for i in range(n)]
    X = ctx.frame(rows, [f"v{j}" for j in range(p)]) if kind == "frame" else ctx.array([r[0] for r in rows] if kind == "flat" else rows)
    s = RobustScaler(with_centering=centering, with_scaling=scaling) if default else RobustScaler(make(est), with_centering=centering, with_scaling=scaling)
    s.fit(X, ignore_nan=bool(nan))
    loc, sc = [], []
    for j in range(p):
        e = make(est).fit(ctx.array([r[j] for i, r in enumerate(rows) if (i, j) not in nan]))
        loc.append(e.location if centering else 0)
        sc.append(e.scale if scaling else 1)
        if not ctx.if_(sc[j] if scaling else 1.0, ">", 1e-9):
            ctx.stop()
    # new points
    m = 2
    new = [[ctx.real(f"u{i}{j}", lo=-1000, hi=1000) for j in range(p)] for i in range(m)]
    U = ctx.frame(new, [f"v{j}" for j in range(p)]) if kind == "frame" else ctx.array([r[0] for r in new] if kind == "flat" else new)
    T = np.asarray(s.transform(U))
    ctx.check(T.shape == (m, p), "one transformed value per value")
    for j in range(p):
        ctx.check(ctx.all([ctx.eq(T[i, j] * sc[j], new[i][j] - loc[j]) for i in range(m)]), "columns are centered and scaled by their own location and scale")
    R = np.asarray(s.inverse_transform(U))
    ctx.check(R.shape == (m, p), "one value per transformed value")
    for j in range(p):
        ctx.check(ctx.all([ctx.eq(R[i, j], new[i][j] * sc[j] + loc[j]) for i in range(m)]), "the inverse multiplies by the scale and adds the location")
    Q = np.asarray(s.inverse_transform(s.transform(U)))
    ctx.check(ctx.all([ctx.eq(Q[i, j], new[i][j]) for i in range(m) for j in range(p)]), "the inverse undoes the transformation")
    V = np.asarray(U.values if kind == "frame" else U).reshape(m, p)
    ctx.check(ctx.all([ctx.eq(V[i, j], new[i][j]) for i in range(m) for j in range(p)]), "input unchanged")
    W = np.asarray(X.values if kind == "frame" else X).reshape(n, p)
    ctx.check(ctx.all([ctx.is_nan(W[i, j]) if (i, j) in nan else ctx.eq(W[i, j], rows[i][j]) for i in range(n) for j in range(p)]), "training data unchanged")


def separate(ctx):
    """fitting another scaler (with the same default estimator) or refitting leaves no trace"""
    from robpy.preprocessing import RobustScaler

    b = ctx.real("b", lo=-1000, hi=1000)
    k = ctx.real("k", lo=0.125, hi=1000)
    X = ctx.array([[ctx.const(v) for v in r[:2]] for r in B])
    Y = ctx.array([[ctx.const(v) * k + b for v in r] for r in B])
    a = RobustScaler().fit(X)
    before = [list(np.asarray(a.locations_)), list(np.asarray(a.scales_))]
    c = RobustScaler().fit(Y)
    ctx.check(ctx.all([ctx.eq(a.locations_[j], before[0][j]) & ctx.eq(a.scales_[j], before[1][j]) for j in range(2)]), "scalers are independent")
    c.fit(X)
    ctx.check(len(c.locations_) == 2, "refitting replaces the fit")
    ctx.check(ctx.all([ctx.eq(c.locations_[j], before[0][j]) & ctx.eq(c.scales_[j], before[1][j]) for j in range(2)]), "refitting replaces the fit")


def missing(ctx):
    """missing values are rejected unless asked for"""
    from robpy.preprocessing import RobustScaler

    at = ctx.choose(4)
    x = ctx.real("x")
    X = ctx.array([[float("nan") if i == at else (x if i == (at + 1) % 4 else ctx.const(B[i][0]))] for i in range(4)])
    raised = False
    try:
        RobustScaler().fit(X)
    except ValueError:
        raised = True
    ctx.check(raised, "missing values are rejected with ValueError")


def scenarios(tier):
    S = Scenario
    out = [
        S("default, 3 columns", scaler, dict(est="UnivariateMCD", n=6, p=3, free=[(2, 1)], default=True)),
        S("default, frame", scaler, dict(est="UnivariateMCD", n=5, p=2, free=[(4, 0)], kind="frame", default=True)),
        S("mcd, no centering", scaler, dict(est="UnivariateMCD", n=5, p=2, free=[(1, 0)], centering=False)),
        S("mcd, no scaling", scaler, dict(est="UnivariateMCD", n=5, p=2, free=[(1, 1)], scaling=False)),
        S("mcd, neither", scaler, dict(est="UnivariateMCD", n=5, p=2, free=[(1, 1)], scaling=False, centering=False)),
        S("flat", scaler, dict(est="UnivariateMCD", n=6, p=1, free=[(5, 0)], kind="flat")),
        S("missing values", scaler, dict(est="UnivariateMCD", n=6, p=2, free=[(5, 0)], nan=[(1, 0), (3, 1)])),
        S("missing values, frame", scaler, dict(est="Qn", n=6, p=2, free=[(5, 0)], nan=[(1, 0), (3, 0), (0, 1)], kind="frame")),
        S("qn", scaler, dict(est="Qn", n=5, p=2, free=[(2, 0)])),
        S("tau", scaler, dict(est="Tau", n=5, p=2, free=[(2, 1)])),
        S("huber", scaler, dict(est="HuberOneStepM", n=5, p=2, free=[(3, 0)])),
        S("cellwise", scaler, dict(est="CellwiseOneStepM", n=5, p=2, free=[(0, 1)], kind="frame")),
        S("separate", separate, {}), S("missing rejected", missing, {}),
    ]
    if tier == "thorough":
        out += [S(f"mcd, two free {kind}", scaler, dict(est="UnivariateMCD", n=7, p=3, free=[(2, 1), (5, 1)], kind=kind)) for kind in ("array", "frame")]
        out += [S("wrapping", scaler, dict(est="OneStepWrapping", n=5, p=2, free=[(2, 1)])), S("qn, n=7", scaler, dict(est="Qn", n=7, p=2, free=[(2, 0)]))]
    return out
