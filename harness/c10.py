"""inverse_submatrix returns the inverse of the selected principal submatrix."""
import itertools

import numpy as np

from symrob.runner import Scenario
from harness.common import adj_, det_

FUNCTIONS = ["utils.general.inverse_submatrix"]
BOUNDS = "p=2 and 3 with every symmetric entry free, p=4 and 5 with two free entries; every index subset (p=4: all 15, p=5: sizes 1..5)"
BUDGET = 40
B5 = [[4.0, 1.0, 0.5, -0.25, 0.75], [1.0, 3.0, -0.5, 0.25, 0.125], [0.5, -0.5, 5.0, 1.0, -0.375],
      [-0.25, 0.25, 1.0, 2.0, 0.5], [0.75, 0.125, -0.375, 0.5, 3.5]]


def body(ctx, p, sizes, free=None, order=False, nonsym=False):
    from robpy.utils.general import inverse_submatrix

    if free is None:
        if nonsym:
            M = [[ctx.real(f"a{i}{j}") for j in range(p)] for i in range(p)]
        else:
            v = {(a, b): ctx.real(f"s{a}{b}") for a in range(p) for b in range(a + 1)}
            M = [[v[(max(a, b), min(a, b))] for b in range(p)] for a in range(p)]
    else:
        M = [[ctx.const(B5[a][b]) for b in range(p)] for a in range(p)]
        for k, (a, b) in enumerate(free):
            M[a][b] = M[b][a] = ctx.real(f"s{k}", lo=-0.4, hi=0.4) if a != b else ctx.real(f"s{k}", lo=2, hi=100)
    D = det_(M)
    ctx.assume(D, "!=" if free is None else ">", 0)
    subs = [c for k in sizes for c in itertools.combinations(range(p), k)]
    idx = list(subs[ctx.choose(len(subs))])
    if order:
        idx = idx[1:] + idx[:1]
    sub = [[M[a][b] for b in idx] for a in idx]
    ds = det_(sub)
    if free is None:
        ctx.assume(ds, "!=", 0)
        # the trick inverts the complementary block of the inverse, which is invertible iff the submatrix is
    Ai = ctx.array([[x / D for x in r] for r in adj_(M)])
    A = ctx.array(M)
    R = inverse_submatrix(A, Ai, np.array(idx))
    k = len(idx)
    ctx.observe("R", R)
    ctx.check(R.shape == (k, k), "shape of the result")
    adj = adj_(sub)
    ctx.check(ctx.all([ctx.eq(R[a, b] * ds, adj[a][b]) for a in range(k) for b in range(k)]),
              "the result is the inverse of the submatrix")
    ctx.check(ctx.eq_arr(A, ctx.array(M), 0), "the matrix is left unchanged")


def scenarios(tier):
    S = Scenario
    out = [S("p=2", body, dict(p=2, sizes=(1, 2))), S("p=3", body, dict(p=3, sizes=(1, 2, 3))),
           S("p=3 unsorted indices", body, dict(p=3, sizes=(2, 3), order=True)),
           S("p=2 non-symmetric", body, dict(p=2, sizes=(1, 2), nonsym=True)),
           S("p=4", body, dict(p=4, sizes=(1, 2, 3, 4), free=((0, 2), (1, 1)))),
           S("p=4 unsorted indices", body, dict(p=4, sizes=(2, 3), free=((0, 3),), order=True)),
           S("p=5", body, dict(p=5, sizes=(1, 2, 3, 4, 5), free=((1, 3),)))]
    if tier != "quick":
        out.append(S("p=3 non-symmetric", body, dict(p=3, sizes=(1, 2, 3), nonsym=True)))
        out.append(S("p=5 two free", body, dict(p=5, sizes=(1, 2, 3, 4), free=((1, 3), (0, 4)))))
    return out
