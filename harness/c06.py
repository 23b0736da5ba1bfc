"""Univariate fit(): dimension and missing-value contract."""
import numpy as np

from symrob.runner import Scenario

FUNCTIONS = ["univariate.base.RobustScale.fit", "univariate.base.RobustScale.scale", "univariate.base.RobustScale.location"]
BOUNDS = "n=4..6 with every position of one or two missing values, the other values free or (heavy estimators) one free"
BUDGET = 30
NAMES = ("UnivariateMCD", "Qn", "Tau", "HuberOneStepM", "CellwiseOneStepM", "OneStepWrapping")


def fitted(ctx, est, x, **k):
    from harness.c04 import make

    return make(est).fit(x, **k)


def nan_gate(ctx, est, n):
    from harness.c04 import make

    at = ctx.choose(n)
    vals = [ctx.real(f"x{i}") if i != at else float("nan") for i in range(n)]
    x = ctx.array(vals)
    raised = False
    try:
        make(est).fit(x)
    except ValueError:
        raised = True
    ctx.check(raised, "missing values are rejected with ValueError")


def ignore(ctx, est, n, two=False, base=(0.3, 2.25, -1.2, 2.2, 0.9, -0.4)):
    from harness.c04 import make

    at = ctx.choose(n)
    at2 = at + 1 + ctx.choose(n - 1 - at) if two and at < n - 1 else at
    fr = next(i for i in range(n) if i not in (at, at2))
    vals = [float("nan") if i in (at, at2) else (ctx.real("v") if i == fr else ctx.const(base[i])) for i in range(n)]
    x = ctx.array(vals)
    y = ctx.array([v for i, v in enumerate(vals) if i not in (at, at2)])
    a = make(est).fit(x, ignore_nan=True)
    b = make(est).fit(y)
    ctx.observe("loc", a.location)
    nl = ctx.is_nan(a.location) & ctx.is_nan(b.location)
    ns = ctx.is_nan(a.scale) & ctx.is_nan(b.scale)
    ctx.check(nl | ctx.eq(a.location, b.location), "ignoring missing values equals fitting the observed values (location)")
    ctx.check(ns | ctx.eq(a.scale, b.scale), "ignoring missing values equals fitting the observed values (scale)")
    ok = [ctx.is_nan(x[i]) if i in (at, at2) else ctx.eq(x[i], vals[i], 0) for i in range(n)]
    ctx.check(ctx.all(ok), "the caller's array is unchanged")


def dims(ctx, est):
    from harness.c04 import make

    shape = [(2, 3), (3, 1), (1, 3), (2, 2, 1)][ctx.choose(4)]
    x = ctx.array([ctx.real(f"x{i}") for i in range(int(np.prod(shape)))]).reshape(shape)
    raised = False
    try:
        make(est).fit(x)
    except ValueError:
        raised = True
    ctx.check(raised, "non-univariate data are rejected with ValueError")


def unfitted(ctx, est):
    from sklearn.exceptions import NotFittedError

    from harness.c04 import make

    x = ctx.array([ctx.real("x0"), 1.0, 3.0, 4.5])
    e = make(est)
    for prop in ("scale", "location"):
        ok = False
        try:
            getattr(e, prop)
        except NotFittedError:
            ok = True
        ctx.check(ok, "reading an estimate before fitting raises NotFittedError")
    r = e.fit(x)
    ctx.check(r is e, "fit returns the estimator")


def scenarios(tier):
    S = Scenario
    out = []
    for e in NAMES:
        out += [S(f"{e} rejects missing values", nan_gate, dict(est=e, n=4)),
                S(f"{e} ignore_nan n=5", ignore, dict(est=e, n=5)),
                S(f"{e} ignore_nan n=6 two missing", ignore, dict(est=e, n=6, two=True)),
                S(f"{e} dimensions", dims, dict(est=e)),
                S(f"{e} unfitted", unfitted, dict(est=e))]
    return out
