"""Univariate estimators: location/scale equivariance and invariance to the order of the observations."""
from symrob.runner import Scenario
from harness.common import sorted_assume

FUNCTIONS = ["univariate.mcd.UnivariateMCD", "univariate.qn.Qn", "univariate.tau.Tau",
             "univariate.onestep_m.OneStepM (HuberOneStepM, CellwiseOneStepM)", "univariate.onestep_m.OneStepWrapping",
             "univariate.base.RobustScale.fit"]
BOUNDS = ("n=3 with every value free (M and tau estimators: median 0 and gaps in [0.001, 1000]), n=5..9 with one or two free values; concrete samples n=9, 12 times every factor in [1e-6, 1e6]; shift symbolic, factors 3, 1/4 and -2; "
          "permutations: reversal and rotation")
BUDGET = 45
BASE = [0.3, 2.25, -1.2, 2.2, 0.9, -0.4, 1.4, 7.5, 3.1, -2.6, 0.55, 1.05]


def make(name):
    from robpy import univariate as u
    from robpy.univariate.onestep_m import OneStepWrapping, CellwiseOneStepM, HuberOneStepM
    from robpy.univariate.tau import Tau

    return {"UnivariateMCD": u.UnivariateMCD, "Qn": u.Qn, "Tau": Tau, "HuberOneStepM": HuberOneStepM,
            "CellwiseOneStepM": CellwiseOneStepM, "OneStepWrapping": OneStepWrapping}[name]()


def data(ctx, n, free, srt=False):
    if free == "m":  # three observations around 0 with a median absolute deviation bounded away from zero
        lo, hi = ctx.real("x0", lo=-1000, hi=-0.001), ctx.real("x2", lo=0.001, hi=1000)
        return ctx.array([lo, 0.0, hi] if srt else [hi, lo, 0.0])
    if free is None:
        return ctx.vec("x", n)
    return ctx.array([ctx.real(f"x{i}") if i in free else ctx.const(BASE[i]) for i in range(n)])


def equiv(ctx, est, n, a, free=None, srt=False, shift=True):
    x = data(ctx, n, free, srt)
    if srt and free is None:
        sorted_assume(ctx, x)
    b = ctx.real("b") if shift else ctx.const(1.5)
    e1 = make(est).fit(x)
    l1, s1 = e1.location, e1.scale
    e2 = make(est).fit(x * a + b)
    ctx.observe("loc", l1)
    ctx.observe("scale", s1)
    nan = ctx.all([ctx.is_nan(l1), ctx.is_nan(e2.location)])
    ctx.check(nan | ctx.eq(e2.location, l1 * a + b), "location is shift and scale equivariant")
    nan = ctx.all([ctx.is_nan(s1), ctx.is_nan(e2.scale)])
    ctx.check(nan | ctx.eq(e2.scale, s1 * abs(a)), "scale is shift invariant and scale equivariant")


def scaled(ctx, est, n, i):
    """every scale of a sample: the estimates follow the factor however small or large it is"""
    k = ctx.real("k", lo=1e-6, hi=1e6)
    x = [float(v) for v in BASE[:n]]
    x[i] = 12.5
    e1 = make(est).fit(ctx.array([ctx.const(v) for v in x]))
    l1, s1 = e1.location, e1.scale
    e2 = make(est).fit(ctx.array([ctx.const(v) * k for v in x]))
    ctx.check(ctx.eq(e2.location / k, l1, 1e-6), "location follows the unit of measurement")
    ctx.check(ctx.eq(e2.scale / k, s1, 1e-6), "scale follows the unit of measurement")


def perm(ctx, est, n, order, free=None, srt=False):
    x = data(ctx, n, free, srt)
    if srt and free is None:
        sorted_assume(ctx, x)
    e1 = make(est).fit(x)
    l1, s1 = e1.location, e1.scale
    e2 = make(est).fit(ctx.array([x[i] for i in order]))
    ctx.observe("loc", l1)
    nan = ctx.all([ctx.is_nan(l1), ctx.is_nan(e2.location)])
    ctx.check(nan | ctx.eq(e2.location, l1), "location does not depend on the order of the observations")
    nan = ctx.all([ctx.is_nan(s1), ctx.is_nan(e2.scale)])
    ctx.check(nan | ctx.eq(e2.scale, s1), "scale does not depend on the order of the observations")


def scenarios(tier):
    S = Scenario
    out = []
    for est in ("Qn", "Tau", "HuberOneStepM", "CellwiseOneStepM", "UnivariateMCD", "OneStepWrapping"):
        neg = est not in ("UnivariateMCD", "OneStepWrapping")  # ties between h-subsets are broken from the left
        fr = "m" if est in ("Tau", "HuberOneStepM", "CellwiseOneStepM") else None
        out.append(S(f"{est} n=3 a=3", equiv, dict(est=est, n=3, a=3.0, srt=True, free=fr)))
        out.append(S(f"{est} n=7 a=0.25", equiv, dict(est=est, n=7, a=0.25, free=(2,))))
        if neg:
            out.append(S(f"{est} n=3 a=-2", equiv, dict(est=est, n=3, a=-2.0, srt=True, free=fr)))
            out.append(S(f"{est} n=8 a=-2", equiv, dict(est=est, n=8, a=-2.0, free=(5,))))
        out.append(S(f"{est} n=3 reversed", perm, dict(est=est, n=3, order=[2, 1, 0], free=fr)))
        out.append(S(f"{est} n=9 permuted", perm, dict(est=est, n=9, order=[4, 7, 0, 8, 2, 6, 1, 3, 5], free=(3,))))
        out.append(S(f"{est} n=9 every unit", scaled, dict(est=est, n=9, i=4)))
        out.append(S(f"{est} n=12 every unit", scaled, dict(est=est, n=12, i=0)))
    return out
