"""truncated_covariance and covariance_to_correlation."""
from symrob.runner import Scenario
from harness.common import det_

FUNCTIONS = ["covariance.utils.alter_covariance.truncated_covariance",
             "covariance.utils.alter_covariance.covariance_to_correlation"]
BOUNDS = "p=2 symmetric matrices with every entry free, diagonal p=2 included; correlation p=2,3 with free entries"
BUDGET = 40


def trunc(ctx, mode, lam):
    from robpy.covariance.utils.alter_covariance import truncated_covariance

    if mode == "free":
        a, b, c = ctx.real("a", lo=-50, hi=50), ctx.real("b", lo=-50, hi=50), ctx.real("c", lo=-50, hi=50)
    elif mode == "offdiag":
        a, b, c = ctx.const(2.0), ctx.real("b", lo=-50, hi=50), ctx.const(1.0)
    elif mode == "diag":
        a, b, c = ctx.real("a", lo=-50, hi=50), ctx.const(0.0), ctx.real("c", lo=-50, hi=50)
    elif mode == "equal":
        a = c = ctx.real("a", lo=-50, hi=50)
        b = ctx.real("b", lo=-50, hi=50)
    A = ctx.array([[a, b], [b, c]])
    T = truncated_covariance(A, lam)
    ctx.observe("T", T)
    ctx.check(ctx.eq(T[0, 1], T[1, 0]), "the result is symmetric")
    # all eigenvalues >= lam:  (T - lam I) positive semidefinite
    t = [[T[0, 0] - lam, T[0, 1]], [T[1, 0], T[1, 1] - lam]]
    ctx.check(ctx.ge(t[0][0], 0) & ctx.ge(t[1][1], 0), "no eigenvalue is below the minimum (diagonal)")
    ctx.check(ctx.ge(det_(t), 0, 1e-4), "no eigenvalue is below the minimum (determinant)")
    # unchanged when already fine
    m = [[a - lam, b], [b, c - lam]]
    if ctx.if_(m[0][0], ">=", 0) and ctx.if_(m[1][1], ">=", 0) and ctx.if_(det_(m), ">=", 0):
        ctx.check(ctx.eq_arr(T, A, 1e-5), "a matrix whose eigenvalues all exceed the minimum is unchanged")
    # shares eigenvectors with the input: commutes
    ctx.check(ctx.eq(T[0, 0] * b + T[0, 1] * c, a * T[0, 1] + b * T[1, 1], 1e-4), "the result keeps the eigenvectors")
    # spectrum: trace and determinant are those of the clipped eigenvalues
    ctx.check(ctx.eq_arr(A, ctx.array([[a, b], [b, c]]), 0), "the input is left unchanged")


def corr(ctx, p, nonzero=True):
    from robpy.covariance.utils.alter_covariance import covariance_to_correlation

    v = {}
    for i in range(p):
        for j in range(i + 1):
            v[(i, j)] = ctx.real(f"s{i}{j}", sign="pos") if i == j else ctx.real(f"s{i}{j}")
    M = [[v[(max(i, j), min(i, j))] for j in range(p)] for i in range(p)]
    A = ctx.array(M)
    R = covariance_to_correlation(A)
    ctx.observe("R", R)
    for i in range(p):
        ctx.check(ctx.eq(R[i, i], 1), "unit diagonal")
        for j in range(p):
            ctx.check(ctx.eq(R[i, j] * R[i, j] * M[i][i] * M[j][j], M[i][j] * M[i][j]), "entry squared is s_ij^2/(s_ii s_jj)")
            ctx.check(ctx.ge(R[i, j] * M[i][j], 0), "entry keeps its sign")
            ctx.check(ctx.eq(R[i, j], R[j, i]), "symmetric")
    ctx.check(ctx.eq_arr(A, ctx.array(M), 0), "the input is left unchanged")


def scenarios(tier):
    S = Scenario
    out = [S("truncation off-diagonal free", trunc, dict(mode="offdiag", lam=0.5)),
           S("truncation diagonal", trunc, dict(mode="diag", lam=0.01)),
           S("truncation equal diagonal", trunc, dict(mode="equal", lam=1.0)),
           S("truncation all free", trunc, dict(mode="free", lam=0.25), feas_ms=1500, check_ms=8000),
           S("correlation p=2", corr, dict(p=2)), S("correlation p=3", corr, dict(p=3))]
    return out
