"""mahalanobis_distance: d^2 (x) * det(S) = (x-m)' adj(S) (x-m), d >= 0."""
from symrob.runner import Scenario
from harness.common import adj_, det_, quad_

FUNCTIONS = ["utils.distance.mahalanobis_distance"]
BOUNDS = "p=1,2 with every entry free and positive definite scatter; p=3 with free data and two free scatter entries; n<=2 rows"
BUDGET = 30


def body(ctx, p, n, mode="free", frame=False, loc2d=False):
    from robpy.utils.distance import mahalanobis_distance

    X = ctx.mat("x", n, p)
    m = ctx.vec("m", p)
    if mode == "free":
        v = {(a, b): ctx.real(f"s{a}{b}") for a in range(p) for b in range(a + 1)}
    else:
        base = [[2.0, 0.5, -0.25], [0.5, 1.0, 0.125], [-0.25, 0.125, 3.0]]
        v = {(a, b): ctx.const(base[a][b]) for a in range(p) for b in range(a + 1)}
        v[(1, 0)] = ctx.real("s10")
        v[(2, 2)] = ctx.real("s22")
    M = [[v[(max(a, b), min(a, b))] for b in range(p)] for a in range(p)]
    for k in range(1, p + 1):
        ctx.assume(det_([r[:k] for r in M[:k]]), ">", 0)
    S = ctx.array(M)
    L = ctx.array([list(m)]) if loc2d else m
    d = mahalanobis_distance(ctx.frame(X, list("abc")[:p]) if frame else X, L, S)
    ctx.observe("d", d)
    ctx.check(d.shape == (n,), "one distance per row")
    A, D = adj_(M), det_(M)
    for i in range(n):
        diff = [X[i, j] - m[j] for j in range(p)]
        ctx.check(ctx.ge(d[i], 0, 0), "distances are non-negative")
        ctx.check(ctx.eq(d[i] * d[i] * D, quad_(diff, A)), "squared distance is the quadratic form in the inverse scatter")
    ctx.check(ctx.eq_arr(S, ctx.array(M), 0) & ctx.eq_arr(L.reshape(-1), m, 0), "arguments are left unchanged")


def scenarios(tier):
    S = Scenario
    return [S("p=1", body, dict(p=1, n=2)), S("p=2", body, dict(p=2, n=2)),
            S("p=2 DataFrame", body, dict(p=2, n=2, frame=True)), S("p=2 row vector location", body, dict(p=2, n=2, loc2d=True)),
            S("p=3", body, dict(p=3, n=1, mode="part"))]
