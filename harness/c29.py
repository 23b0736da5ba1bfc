"""Robust power transformation: formulas, inverse, estimation of lambda."""
import numpy as np
from scipy import stats
from scipy.optimize import minimize_scalar

from symrob.runner import Scenario

FUNCTIONS = ["preprocessing.transfo.RobustPowerTransformer.fit", "preprocessing.transfo.RobustPowerTransformer.transform",
             "preprocessing.transfo.RobustPowerTransformer.inverse_transform", "univariate.onestep_m.HuberOneStepM", "utils.rho.TukeyBisquare"]
STUBS = ["powers, exp and log: uninterpreted functions with the laws of powers, monotonicity and Bernoulli bounds",
         "scipy minimize_scalar: the real routine on objectives that do not depend on any unknown (standardized data)"]
BOUNDS = ("transform and inverse: every lambda in [-4, 6] (symbolic) and the special values, two free points in [-50, 50] (Box-Cox [1/8, 50]); fits: "
          "concrete samples of 12..24 values under every shift in [-1000, 1000] and rescaling in [10^-3, 10^3]")
BUDGET = 90

SKEW = [0.11, 0.2, 0.26, 0.35, 0.42, 0.5, 0.64, 0.71, 0.9, 1.05, 1.3, 1.42, 1.75, 2.2, 2.6, 3.4, 4.1, 5.2, 0.84, 1.15]
OUTL = SKEW[:16] + [40.0, 55.0, 61.0, 33.0]
LEFT = [10 - v for v in SKEW]
SYMM = [-2.1, -1.4, -1.1, -0.8, -0.55, -0.3, -0.1, 0.05, 0.2, 0.45, 0.7, 0.95, 1.2, 1.6, 2.3, -1.75, 0.3, -0.2]
FARL = [28.65, 30.05, 31.1, 7.9, 5.44, 7.28, 7.51, 7.96, 6.2, 7.77, 7.12, 7.37, 5.29, 7.1, 6.92]
UNIT = [1.15, 2.32, 2.34, 2.37, 2.51, 3.28, 3.56, 3.76, 3.83, 3.87, 4.35, 4.77]
HEAVY = [1.13, 1.15, 1.22, 1.24, 1.25, 1.29, 1.35, 1.36, 1.37, 1.88, 1.96, 2.02, 2.47, 4.77]
SETS = {"units": UNIT, "heavy": HEAVY, "far left": FARL, "skewed": SKEW, "outliers": OUTL, "left": LEFT, "symmetric": SYMM, "negative": [-v for v in SKEW], "far": [v + 3 for v in SKEW]}


def T(**k):
    from robpy.preprocessing import RobustPowerTransformer

    return RobustPowerTransformer(**k)


def forward(ctx, method, z, lam):
    """own Box-Cox / Yeo-Johnson formula for one value"""
    def bc(u, l):
        if ctx.if_(l, "==", 0):
            return ctx.log(u)
        return (u ** l - 1) / l

    if method == "boxcox":
        return bc(z, lam)
    if ctx.if_(z, ">=", 0):
        return bc(1 + z, lam)
    return -bc(1 - z, 2 - lam)


def trip(ctx, method, lam, standardize, lo=-50, hi=50):
    m = T(method=method, standardize=standardize)
    m.fit(ctx.array([ctx.const(v) for v in SKEW]))
    if lam == "free":
        lam = ctx.real("lam", lo=-4, hi=6)
    elif isinstance(lam, tuple):
        lam = ctx.real("lam", lo=lam[0], hi=lam[1])
    m.lambda_rew = lam
    x = [ctx.real(f"x{i}", lo=max(lo, 0.125) if method == "boxcox" else lo, hi=hi) for i in range(2)]
    A = ctx.array(x)
    Y = list(np.asarray(m.transform(A)))
    ctx.check(len(Y) == 2, "one value per value")
    pre = (lambda v: (v - (m.location_pre if method != "boxcox" else 0)) / m.scale_pre) if standardize else (lambda v: v)
    post = (lambda v: (v - m.location_post) / m.scale_post) if standardize else (lambda v: v)
    for i in range(2):
        ctx.check(ctx.eq(Y[i], post(forward(ctx, method, pre(x[i]), lam)), 1e-7), "transformed by the Box-Cox / Yeo-Johnson formula")
    B = list(np.asarray(m.inverse_transform(ctx.array(Y))))
    ctx.check(ctx.all([ctx.eq(B[i], x[i], 1e-6) for i in range(2)]), "the inverse undoes the transformation")
    ctx.check(ctx.all([ctx.eq(A[i], x[i]) for i in range(2)]), "input unchanged")


def monotone(ctx, method, lam):
    m = T(method=method, standardize=False)
    m.fit(ctx.array([ctx.const(v) for v in SKEW]))
    lam = ctx.real("lam", lo=lam[0], hi=lam[1]) if isinstance(lam, tuple) else lam
    m.lambda_rew = lam
    x = [ctx.real(f"x{i}", lo=1e-3 if method == "boxcox" else -50, hi=50) for i in range(2)]
    ctx.assume(x[0], "<", x[1])
    Y = list(np.asarray(m.transform(ctx.array(x))))
    ctx.check(ctx.le(Y[0], Y[1], 1e-9), "the transformation is increasing")


def outside(ctx, method, lam, standardize=False):
    """values beyond the range of the transformation are clipped before they are transformed back"""
    m = T(method=method, standardize=standardize)
    m.fit(ctx.array([ctx.const(v) for v in SKEW]))
    m.lambda_rew = lam
    y = [ctx.real(f"y{i}", lo=-30, hi=30) for i in range(2)]
    A = ctx.array(y)
    out = list(np.asarray(m.inverse_transform(A)))
    l = lam
    for i in range(2):
        v = y[i]
        if standardize:
            v = v * m.scale_post + m.location_post
        lo = hi = None
        if method == "boxcox":
            lo, hi = (-1 / l if l > 0 else None), (-1 / l if l < 0 else None)
        else:
            lo, hi = (-1 / (l - 2) if l > 2 else None), (-1 / l if l < 0 else None)
        if lo is not None and ctx.if_(v, "<", lo):
            v = ctx.const(0.95 * lo)
        elif hi is not None and ctx.if_(v, ">", hi):
            v = ctx.const(0.95 * hi)

        def inv(u, l):
            return ctx.exp(u) if l == 0 else (u * l + 1) ** (1 / l)

        if (lo is not None and ctx.if_(v, "==", lo)) or (hi is not None and ctx.if_(v, "==", hi)):
            continue
        if method == "boxcox":
            e = inv(v, l)
        elif ctx.if_(v, ">=", 0):
            e = inv(v, l) - 1
        else:
            e = 1 - inv(-v, 2 - l)
        if standardize:
            e = e * m.scale_pre + (m.location_pre if method != "boxcox" else 0)
        ctx.check(ctx.finite(out[i]), "transformed back to a finite value")
        ctx.check(ctx.eq(out[i], e, 1e-6), "inverse formula of the (clipped) value")
    ctx.check(ctx.all([ctx.eq(A[i], y[i]) for i in range(2)]), "input unchanged")


# own estimation of lambda, for numbers
def h_(method, x, l):
    def bc(u, l):
        return np.log(u) if l == 0 else (u ** l - 1) / l

    if method == "boxcox":
        return bc(x, l)
    x = np.asarray(x, float)
    return np.where(x >= 0, bc(1 + np.maximum(x, 0), l), -bc(1 - np.minimum(x, 0), 2 - l))


def hinv_(method, y, l):
    def inv(u, l):
        return np.exp(u) if l == 0 else (u * l + 1) ** (1 / l)

    if method == "boxcox":
        return inv(y, l)
    return inv(y, l) - 1 if y >= 0 else 1 - inv(-y, 2 - l)


def rect_(method, x, l, eps=1e-5):
    n = len(x)
    q = -(-n // 4)
    if l == 1:
        return h_(method, x, l)
    c = 1.5 * float(h_(method, x[n - q] if l < 1 else x[q - 1], l))
    if l < 0:
        c = min(c, abs(1 / l) - eps)
    elif method == "boxcox" and l > 0:
        c = max(c, -1 / l + eps)
    elif method == "yeojohnson" and l > 2:
        c = max(c, 1 / (2 - l) + eps)
    C = min(max(float(hinv_(method, c, l)), x[0]), x[-1])
    s = C ** (l - 1) if method == "boxcox" else ((1 + C) ** (l - 1) if C >= 0 else (1 - C) ** (1 - l))
    lin = float(h_(method, C, l)) + (x - C) * s
    return np.where(x > C if l < 1 else x < C, lin, h_(method, x, l))


def huber_(x):
    m = np.median(x)
    s = 1.4826 * np.median(np.abs(x - m))
    u = (x - m) / s
    w = np.minimum(1, 1.5 / np.maximum(np.abs(u), 1e-300))
    loc = np.sum(w * x) / np.sum(w)
    u = (x - loc) / s
    b, r = 1.5, np.minimum(u ** 2, 1.5 ** 2)
    d = 2 * ((1 - b * b) * stats.norm.cdf(b) - b * stats.norm.pdf(b) + b * b) - 1
    return loc, s * np.sqrt(np.sum(r) / (len(x) * d))


def crit_(x):
    n = len(x)
    from robpy.univariate import HuberOneStepM

    e = HuberOneStepM().fit(np.array([float(v) for v in x]))
    u = (x - float(e.location)) / float(e.scale) - stats.norm.ppf((np.arange(1, n + 1) - 1 / 3) / (n + 1 / 3))
    c = 0.5
    return float(np.sum(np.where(np.abs(u) <= c, 1 - (1 - (u / c) ** 2) ** 3, 1.0))), float(e.location), float(e.scale)


def fit_(x, method, standardize, rng=(-4.0, 6.0), quantile=0.99, nsteps=2):
    x = np.sort(np.array(x, float))
    loc, sc = 0.0, 1.0
    if standardize:
        if method == "boxcox":
            sc = np.median(x)
        else:
            loc = np.median(x)
            sc = np.median(np.abs(x - loc)) / stats.norm.ppf(0.75)
    z = (x - loc) / sc
    rng = list(rng)
    while True:
        raw = minimize_scalar(lambda l: crit_(rect_(method, z, l))[0], bounds=tuple(rng), method="bounded").x
        t = rect_(method, z, raw)
        _, lo, s = crit_(t)
        w = np.abs((t - lo) / s) <= np.sqrt(stats.chi2.ppf(quantile, 1))
        for _ in range(nsteps):
            zz = z[w]

            def nll(l):
                v = h_(method, zz, l)
                jac = np.sum(np.log(zz)) if method == "boxcox" else np.sum(np.sign(zz) * np.log1p(np.abs(zz)))
                return len(zz) / 2 * np.log(np.var(v)) - (l - 1) * jac

            lam = minimize_scalar(nll, bounds=tuple(rng), method="bounded").x
            t = h_(method, z, lam)
            mu, sd = np.mean(t[w]), np.std(t[w])
            last, w = w, np.abs((t - mu) / sd) <= np.sqrt(stats.chi2.ppf(quantile, 1))
        if min(abs(lam - rng[0]), abs(lam - rng[1])) > 0.05 * (rng[1] - rng[0]):
            break
        near = [abs(lam - r) for r in rng]
        rng = [1 + (r - 1) * (2 if near[i] == min(near) else 1) for i, r in enumerate(rng)]
    return lam, loc, sc, mu, sd, crit_(h_(method, z, lam))[0]


def estimate(ctx, which, method, standardize=True, how="", rng=None, quantile=0.99, nsteps=2):
    base = SETS[which]
    k = ctx.real("k", lo=1e-3, hi=1e3) if "scale" in how else ctx.const(1)
    b = ctx.real("b", lo=-1000, hi=1000) if "shift" in how else ctx.const(0)
    x = [ctx.const(v) * k + b for v in base]
    A = ctx.array(x)
    K = {} if rng is None else dict(lambda_range=rng)
    m = T(method=method, standardize=standardize, quantile=quantile, nsteps=nsteps, **K)
    m.fit(A)
    e = method
    lam, loc, sc, mu, sd, _ = fit_(base, e, standardize, rng or (-4.0, 6.0), quantile, nsteps)
    ctx.check(ctx.eq(m.lambda_rew, lam, 1e-3), "lambda: reweighted maximum likelihood from the robust initial value")
    ctx.check(list(m.lambda_range) == list(rng or (-4.0, 6.0)), "parameters unchanged")
    if standardize:
        ctx.check(ctx.eq((m.scale_pre) / k, sc, 1e-7), "data standardized by median and MAD (divided by the median)")
        if method != "boxcox":
            ctx.check(ctx.eq((m.location_pre - b) / k, loc, 1e-7), "data standardized by median and MAD (divided by the median)")
        ctx.check(ctx.eq(m.location_post, mu, 5e-3) & ctx.eq(m.scale_post, sd, 5e-3), "transformed values standardized by the reweighted mean and standard deviation")
    ctx.check(ctx.all([ctx.eq(A[i], x[i]) for i in range(len(x))]), "input unchanged")


def auto(ctx, which, first=None, scale=True):
    """the better of the two methods, and Yeo-Johnson for data that are not positive; every fit decides anew"""
    k = ctx.real("k", lo=1e-3, hi=1e3) if scale else ctx.const(1)
    m = T(method="auto", standardize=True)
    if first:
        m.fit(ctx.array([ctx.const(v) for v in SETS[first]]))
    pos = min(SETS[which]) > 0
    x = [ctx.const(v) * k for v in SETS[which]]
    m.fit(ctx.array(x))
    ctx.check(m.method == "auto", "parameters unchanged")
    if pos:
        a, b = fit_(SETS[which], "boxcox", True), fit_(SETS[which], "yeojohnson", True)
        e = "boxcox" if a[-1] < b[-1] else "yeojohnson"
        lam = (a if e == "boxcox" else b)[0]
    else:
        e, lam = "yeojohnson", fit_(SETS[which], "yeojohnson", True)[0]
    ctx.check(ctx.eq(m.lambda_rew, lam, 1e-3), "the method with the lower criterion is used")
    B = list(np.asarray(m.inverse_transform(m.transform(ctx.array(x)))))
    ctx.check(ctx.all([ctx.eq(B[i], x[i], 1e-6) for i in range(len(x))]), "the inverse undoes the transformation")


def errors(ctx):
    x = ctx.real("x", lo=-10, hi=0)
    bad = [ctx.const(v) for v in SKEW]
    bad[3] = x
    n = 0
    for k in (dict(method="boxcox"), dict(method="other")):
        try:
            T(**k).fit(ctx.array(bad))
        except ValueError:
            n += 1
    ctx.check(n == 2, "Box-Cox of data that are not positive and unknown methods are rejected with ValueError")
    m = T(method="boxcox").fit(ctx.array([ctx.const(v) for v in SKEW]))
    try:
        m.transform(ctx.array(bad))
    except ValueError:
        n += 1
    ctx.check(n == 3, "Box-Cox of data that are not positive is rejected with ValueError")


def integers(ctx, method):
    """integers are transformed like the same numbers stored as floats"""
    v = [1, 4, 9, 2, 30, 7, 3, 12, 5, 21, 6, 50]
    lam = ctx.real("lam", lo=-3, hi=-0.5)
    for std in (False, True):
        a, b = T(method=method, standardize=std), T(method=method, standardize=std)
        a.fit(np.array(v))
        b.fit(ctx.array([ctx.const(float(u)) for u in v]))
        ctx.check(ctx.eq(a.lambda_rew, b.lambda_rew, 1e-6), "integers are fitted like floats")
        u, w = list(np.asarray(a.transform(np.array(v)))), list(np.asarray(b.transform(ctx.array([ctx.const(float(u)) for u in v]))))
        ctx.check(ctx.all([ctx.eq(p, q, 1e-6) for p, q in zip(u, w)]), "integers are transformed like floats")


def scenarios(tier):
    S = Scenario
    out = []
    for std in (False, True):
        s = ", standardized" if std else ""
        for l in (0, 2, 1, -1, 0.5, 3.5):
            out.append(S(f"yeojohnson {l}{s}", trip, dict(method="yeojohnson", lam=l, standardize=std)))
        for l in (0, 1, -1.5, 2):
            out.append(S(f"boxcox {l}{s}", trip, dict(method="boxcox", lam=l, standardize=std)))
        out.append(S(f"yeojohnson, every lambda{s}", trip, dict(method="yeojohnson", lam="free", standardize=std)))
        out.append(S(f"boxcox, every lambda{s}", trip, dict(method="boxcox", lam="free", standardize=std)))
    for l in (-1.5, 0, 0.5, 2, 3):
        out.append(S(f"yeojohnson {l} outside", outside, dict(method="yeojohnson", lam=l)))
        out.append(S(f"boxcox {l} outside", outside, dict(method="boxcox", lam=l)))
    out += [S("yeojohnson -1.5 outside, standardized", outside, dict(method="yeojohnson", lam=-1.5, standardize=True)),
            S("boxcox 2 outside, standardized", outside, dict(method="boxcox", lam=2, standardize=True))]
    for l in (0, -1.5, 0.5, 2, 3):
        out.append(S(f"yeojohnson {l} increasing", monotone, dict(method="yeojohnson", lam=l)))
        out.append(S(f"boxcox {l} increasing", monotone, dict(method="boxcox", lam=l)))
    out += [
        S("fit skewed", estimate, dict(which="skewed", method="yeojohnson", how="shift scale")),
        S("fit outliers", estimate, dict(which="outliers", method="yeojohnson", how="shift scale")),
        S("fit left", estimate, dict(which="left", method="yeojohnson", how="shift scale")),
        S("fit symmetric", estimate, dict(which="symmetric", method="yeojohnson", how="shift scale")),
        S("fit boxcox", estimate, dict(which="skewed", method="boxcox", how="scale")),
        S("fit boxcox, outliers", estimate, dict(which="outliers", method="boxcox", how="scale")),
        S("fit, no standardization", estimate, dict(which="skewed", method="yeojohnson", standardize=False)),
        S("fit far, no standardization", estimate, dict(which="far", method="yeojohnson", standardize=False)),
        S("fit far left, no standardization", estimate, dict(which="far left", method="yeojohnson", standardize=False)),
        S("fit left, no standardization", estimate, dict(which="left", method="yeojohnson", standardize=False)),
        S("fit negative, no standardization", estimate, dict(which="negative", method="yeojohnson", standardize=False)),
        S("fit range, yeojohnson", estimate, dict(which="outliers", method="yeojohnson", how="shift scale", rng=(0.5, 1.5))),
        S("fit range, boxcox", estimate, dict(which="skewed", method="boxcox", how="scale", rng=(0.5, 1.5))),
        S("fit steps", estimate, dict(which="outliers", method="yeojohnson", how="shift scale", nsteps=4, quantile=0.8)),
        S("fit one step", estimate, dict(which="outliers", method="boxcox", how="scale", nsteps=1, quantile=0.9)),
        S("auto skewed", auto, dict(which="skewed")), S("auto left", auto, dict(which="left", first="skewed", scale=False)),
        S("auto units", auto, dict(which="units", scale=False)), S("auto heavy", auto, dict(which="heavy", scale=False)),
        S("auto negative", auto, dict(which="negative", first="skewed")), S("auto skewed after negative", auto, dict(which="skewed", first="symmetric")),
        S("errors", errors, {}), S("integers, yeojohnson", integers, dict(method="yeojohnson")), S("integers, boxcox", integers, dict(method="boxcox")),
    ]
    return out
