"""Loss functions: documented closed form, psi the derivative of rho, monotone and bounded."""
from symrob.runner import Scenario
from harness.common import abs_

FUNCTIONS = ["utils.rho.TukeyBisquare.rho", "utils.rho.TukeyBisquare.psi", "utils.rho.Huber.rho", "utils.rho.Huber.psi"]
BOUNDS = "every real argument; tuning constants 1.56, 3, 4.685 and a free constant in [0.5, 8]"
BUDGET = 30


DEF = "default"


def cst(ctx, c):
    return c if c == DEF else ctx.real("c", lo=0.5, hi=8) if c is None else c


def bisquare(ctx, c):
    from robpy.utils.rho import TukeyBisquare

    c = cst(ctx, c)
    x = ctx.real("x")
    r = TukeyBisquare() if c == DEF else TukeyBisquare(c=c)
    c = 1.56 if c == DEF else c
    X = ctx.array([x, -x])
    rho, psi = r.rho(X), r.psi(X)
    ctx.observe("rho", rho)
    ctx.observe("psi", psi)
    a = abs_(ctx, x)
    if ctx.if_(a, "<=", c):
        u = (x / c) * (x / c)
        t = (1 - u)
        ctx.check(ctx.eq(rho[0], c * c / 6 * (1 - t * t * t)), "bisquare rho inside the cutoff")
        ctx.check(ctx.eq(psi[0], x * t * t), "bisquare psi inside the cutoff")
    else:
        ctx.check(ctx.eq(rho[0], c * c / 6), "bisquare rho is constant beyond the cutoff")
        ctx.check(ctx.eq(psi[0], 0), "bisquare psi vanishes beyond the cutoff")
    ctx.check(ctx.eq(rho[0], rho[1]), "rho is even")
    ctx.check(ctx.eq(psi[0], -psi[1]), "psi is odd")
    ctx.check(ctx.ge(rho[0], 0) & ctx.le(rho[0], c * c / 6), "bisquare rho stays within [0, c^2/6]")


def huber(ctx, b):
    from robpy.utils.rho import Huber

    d, b = b == DEF, 1.5 if b == DEF else cst(ctx, b)
    x = ctx.real("x", lo=-1000, hi=1000)
    y = ctx.real("y", lo=-1000, hi=1000)
    r = Huber() if d else Huber(b=b)
    X = ctx.array([x, y])
    rho, psi = r.rho(X), r.psi(X)
    ctx.observe("rho", rho)
    ctx.observe("psi", psi)
    ctx.check(ctx.ge(rho[1] - rho[0], psi[0] * (y - x), 1e-6), "Huber psi is the derivative of the convex Huber rho")
    a = abs_(ctx, x)
    if ctx.if_(a, "<=", b):
        ctx.check(ctx.eq(rho[0], x * x / 2) & ctx.eq(psi[0], x), "Huber is quadratic up to b")
    else:
        ctx.check(ctx.eq(rho[0], b * a - b * b / 2), "Huber is linear beyond b")
        ctx.check(ctx.eq(psi[0] * a, b * x, 1e-5), "Huber psi is b*sign beyond b")


def monotone(ctx, kind, c):
    from robpy.utils.rho import Huber, TukeyBisquare

    r = TukeyBisquare(c=c) if kind == "bisquare" else Huber(b=c)
    x = ctx.real("x", lo=0, hi=100)
    y = ctx.real("y", lo=0, hi=100)
    ctx.assume(x, "<=", y)
    v = r.rho(ctx.array([x, y]))
    ctx.observe("rho", v)
    ctx.check(ctx.le(v[0], v[1]), "rho does not decrease with the absolute residual")


def scenarios(tier):
    S = Scenario
    out = []
    for c in (1.56, 3.0, 4.685, 0.75, None, DEF):
        out.append(S(f"bisquare c={c or 'free'}", bisquare, dict(c=c)))
    for b in (1.5, 2.5, None, DEF):
        out.append(S(f"huber b={b or 'free'}", huber, dict(b=b)))
    out += [S("bisquare monotone", monotone, dict(kind="bisquare", c=1.56)), S("huber monotone", monotone, dict(kind="huber", c=1.5))]
    return out
