"""Stahel-Donoho outlyingness."""
import numpy as np

from symrob.runner import Scenario
from harness.c13 import record
from harness.common import abs_, median_, sum_

FUNCTIONS = ["utils.outlyingness.stahel_donoho", "utils.outlyingness._get_random_direction"]
STUBS = ["random generator: the real numpy generator (concrete seeds), with the drawn observations recorded",
         "SVD of constant matrices: numpy.linalg.svd"]
BOUNDS = ("n=4..6, p=1..3, 1-3 directions: one coordinate free in [-1000, 1000], the others concrete, also with duplicated observations; n=7..12: every "
          "shift and rescaling of concrete samples, directions through two points and orthogonal to hyperplanes; a grid of seeds")
BUDGET = 60
X = [[0.0, 1.0, 0.5], [1.5, 0.5, -1.0], [-1.25, 2.0, 2.0], [2.0, -3.25, 0.25], [-0.5, -1.0, 1.5], [0.75, -2.5, -0.75], [-3.0, 1.75, 1.25], [4.5, 2.125, -2.0],
     [-2.25, -0.875, 3.0], [40.0, 35.0, -20.0], [1.0, 0.25, 0.125], [0.125, -0.75, -1.5]]


def ratios(ctx, rows, u):
    """|projection - median| / MAD of the projections on u: 0 in the centre, None (infinite) elsewhere if the MAD is zero"""
    pr = [sum_([a * b for a, b in zip(r, u)]) for r in rows]
    m = median_(ctx, pr)
    dev = [abs_(ctx, v - m) for v in pr]
    s = median_(ctx, dev)
    zero = ctx.if_(s, "==", 0)
    out = []
    for d in dev:
        if zero:
            out.append(0 if ctx.if_(d, "==", 0) else None)
        else:
            out.append(d / s)
    return out


def pairs(ctx, n, p, free=(), n_dir=2, dup=(), seeds=(3, 8, 11), shift=False, scale=False):
    from robpy.utils.outlyingness import stahel_donoho

    seed = seeds[ctx.choose(len(seeds))] if len(seeds) > 1 else seeds[0]
    b = ctx.real("b", lo=-1000, hi=1000) if shift else 0
    k = ctx.real("k", lo=1e-3, hi=1e3) if scale else 1
    base = [list(X[i][:p]) for i in range(n)]
    for i, j in dup:
        base[i] = list(base[j])
    rows = [[ctx.real(f"x{i}{j}", lo=-1000, hi=1000) if (i, j) in free else ctx.const(v) * k + b * (1, -0.5, 0.25)[j] for j, v in enumerate(r)]
            for i, r in enumerate(base)]
    A = ctx.array(rows)
    log, undo = record(ctx)
    try:
        out = stahel_donoho(A, n_dir=n_dir, random_seed=seed)
    finally:
        undo()
    out = list(np.asarray(out).reshape(-1))
    idx = [s.tolist() for s in log]
    ctx.check(len(out) == n, "one outlyingness per observation")
    ctx.check(len(idx) == n_dir and all(len(s) == 2 and s[0] != s[1] for s in idx), "every direction passes through two distinct observations")
    R = [ratios(ctx, rows, [rows[s[0]][j] - rows[s[1]][j] for j in range(p)]) for s in idx]
    for i in range(n):
        vals = [r[i] for r in R]
        inf = any(v is None for v in vals)
        got = ctx.is_inf(out[i])
        ctx.check(got == inf, "infinite only for an observation off the centre of a direction without spread")
        if inf or got:
            continue
        ctx.check(ctx.all([ctx.ge(out[i], v, 1e-9) for v in vals]), "at least the outlyingness in every direction")
        ctx.check(ctx.any([ctx.eq(out[i], v) for v in vals]), "the outlyingness in one of the directions")
    ctx.check(ctx.all([ctx.eq(A[i, j], rows[i][j]) for i in range(n) for j in range(p)]), "input unchanged")


def spread(ctx, n, n_dir, seed):
    """one seed gives several distinct directions, the same ones each time"""
    from robpy.utils.outlyingness import stahel_donoho

    b = ctx.real("b", lo=-1000, hi=1000)
    A = ctx.array([[ctx.const(v) + b for v in r[:2]] for r in X[:n]])
    logs = []
    res = []
    for _ in range(2):
        log, undo = record(ctx)
        try:
            res.append(list(np.asarray(stahel_donoho(A, n_dir=n_dir, random_seed=seed)).reshape(-1)))
        finally:
            undo()
        logs.append([sorted(s.tolist()) for s in log])
    ctx.check(len({tuple(s) for s in logs[0]}) > n_dir // 3, "the directions differ")
    ctx.check(ctx.all([ctx.eq(u, v) for u, v in zip(*res)]), "a seed reproduces the result")


def planes(ctx, n, p, n_points, n_dir, seed, scale=False):
    """directions orthogonal to hyperplanes through n_points observations"""
    from robpy.utils.outlyingness import stahel_donoho

    b = ctx.real("b", lo=-1000, hi=1000)
    k = ctx.real("k", lo=1e-3, hi=1e3) if scale else 1
    rows = [[ctx.const(v) * k + b * (1, -0.5, 0.25)[j] for j, v in enumerate(r[:p])] for r in X[:n]]
    log, undo = record(ctx)
    try:
        out = list(np.asarray(stahel_donoho(ctx.array(rows), n_points=n_points, n_dir=n_dir, random_seed=seed)).reshape(-1))
    finally:
        undo()
    idx = [s.tolist() for s in log]
    ctx.check(len(idx) == n_dir and all(len(set(s)) == n_points == p for s in idx), "every hyperplane passes through distinct observations")
    R = []
    for s in idx:
        v = [[X[i][j] - X[s[0]][j] for j in range(p)] for i in s[1:]]
        u = [v[0][1] * v[1][2] - v[0][2] * v[1][1], v[0][2] * v[1][0] - v[0][0] * v[1][2], v[0][0] * v[1][1] - v[0][1] * v[1][0]]
        R.append(ratios(ctx, [[ctx.const(w) for w in r[:p]] for r in X[:n]], u))
    for i in range(n):
        vals = [r[i] for r in R]
        ctx.check(ctx.all([ctx.ge(out[i], v, 1e-7) for v in vals]), "at least the outlyingness in every direction")
        ctx.check(ctx.any([ctx.eq(out[i], v, 1e-7) for v in vals]), "the outlyingness in one of the directions")


def scenarios(tier):
    S = Scenario
    out = [
        S("free", pairs, dict(n=5, p=2, free=[(4, 0)], n_dir=1)),
        S("free, two directions", pairs, dict(n=4, p=2, free=[(2, 1)], n_dir=2)),
        S("free observation", pairs, dict(n=5, p=2, free=[(2, 0), (2, 1)], n_dir=1)),
        S("two free observations", pairs, dict(n=5, p=1, free=[(1, 0), (4, 0)], n_dir=2)),
        S("free, three directions", pairs, dict(n=5, p=3, free=[(4, 2)], n_dir=3, seeds=(5,))),
        S("free, p=1", pairs, dict(n=6, p=1, free=[(5, 0)], n_dir=2)),
        S("duplicates", pairs, dict(n=5, p=2, free=[(4, 0)], n_dir=2, dup=[(1, 0), (2, 0)], seeds=(0, 3, 8))),
        S("zero MAD", pairs, dict(n=6, p=2, free=[(5, 1)], n_dir=2, dup=[(1, 0), (2, 0), (3, 0)], seeds=(0, 3, 8))),
        S("all but one", pairs, dict(n=5, p=2, free=[(4, 0), (4, 1)], n_dir=3, dup=[(1, 0), (2, 0), (3, 0)], seeds=(0, 3))),
        S("shift", pairs, dict(n=12, p=3, n_dir=8, shift=True)),
        S("shift and scale", pairs, dict(n=12, p=2, n_dir=5, shift=True, scale=True)),
        S("repeat", spread, dict(n=12, n_dir=12, seed=5)),
        S("hyperplanes", planes, dict(n=12, p=3, n_points=3, n_dir=6, seed=4)),
    ]
    if tier == "thorough":
        out += [S("free observation, two directions", pairs, dict(n=5, p=2, free=[(4, 0), (4, 1)], n_dir=2, seeds=(3,))),
                S("free, three directions, seeds", pairs, dict(n=5, p=2, free=[(4, 0)], n_dir=3, seeds=(1, 2, 3, 4, 5))),
                S("free, n=6", pairs, dict(n=6, p=2, free=[(3, 0)], n_dir=2)),
                S("shift, 40 directions", pairs, dict(n=12, p=3, n_dir=40, shift=True, scale=True)),
                S("hyperplanes, seeds", planes, dict(n=12, p=3, n_points=3, n_dir=20, seed=9))]
    return out
