"""Robustness of the regression estimators: exact fit and bounded influence of gross outliers and bad leverage points."""
import logging

import numpy as np

from symrob.runner import Scenario
from harness.c22 import c_step, fitted, h_of, ls, record
from harness.c25 import coefs

FUNCTIONS = ["regression.lts.FastLTSRegression.fit", "regression.s.SRegression.fit", "regression.mm.MMRegression.fit"]
STUBS = ["exact least squares as in C22, C25, C26"]
BOUNDS = ("exact fit: n=8..11, p=1, 2, one or two responses (or one feature) free in [-10^6, 10^6]; bounded influence: n=11..14 "
          "around a plane with noise up to 1/8, one free outlier of size 100 to 10^6 (response, or a feature of a bad leverage point)")
BUDGET = 60
A, B, C = 0.5, 1.25, -0.75
NOISE = [0.125, -0.0625, 0.03125, -0.125, 0.09375, 0.0, -0.03125, 0.0625, -0.09375, 0.125, -0.125, 0.046875, -0.015625, 0.078125]
XX = [0.0, 1.0, 2.25, 3.0, 4.5, 5.0, 6.25, 7.5, 8.0, 9.5, 10.25, 11.0, 12.5, 13.25]
ZZ = [1.0, -0.5, 2.0, 0.25, -1.5, 3.0, -2.25, 0.5, 1.75, -3.5, 2.75, -1.25, 3.25, -0.75]


def plane(p, noise, n):
    rows = [([XX[i]] if p == 1 else [XX[i], ZZ[i]]) for i in range(n)]
    y = [A + B * r[0] + (C * r[1] if p == 2 else 0.0) + (NOISE[i] if noise else 0.0) for i, r in enumerate(rows)]
    return rows, y


def make(kind, seed, n_init, **kw):
    from robpy import regression as rg

    logging.getLogger("FastLTS").disabled = True
    if kind == "lts":
        return rg.FastLTSRegression(n_initial_subsets=n_init, n_best_models=n_init, random_state=seed, **kw)
    if kind == "s":
        return rg.SRegression(n_initial_subsets=3, n_best_subsets=2, random_state=seed, max_scale_iterations=8, relative_tolerance=1e-4)
    if kind == "mm":
        return rg.MMRegression(initial_estimator=make("s", seed, n_init), max_iterations=4)
    return rg.MMRegression(initial_estimator=make("lts", seed, n_init), **kw)


def leads(ctx, rows, y, s, h):
    """C-steps from this start reach h observations on a plane"""
    for _ in range(8):
        d, f = ls(rows, y, s)
        if ctx.if_(d, "==", 0):
            return False
        b = f()
        r2 = [(y[i] - fitted(b, rows[i])) * (y[i] - fitted(b, rows[i])) for i in range(len(y))]
        if sum(1 for v in r2 if ctx.if_(v, "==", 0)) >= h:
            return True
        nxt = c_step(ctx, rows, y, b, h)
        if set(nxt) == set(s):
            return False
        s = nxt
    return False


def exact(ctx, kind, n, p, out, seed, n_init=4, lim=1e6, kw={}, x_free=False):
    """h observations exactly on a plane: the plane is found as soon as one start draws on-plane observations only"""
    rows, y = plane(p, False, n)
    rows = [[ctx.const(v) for v in r] for r in rows]
    y = [ctx.const(v) for v in y]
    for j, i in enumerate(out):
        if x_free and j == 0:
            rows[i] = [ctx.real(f"x{i}", lo=-1000, hi=1000)] + rows[i][1:]
        else:
            y[i] = ctx.real(f"y{i}", lo=-lim, hi=lim)
    log, undo = record(ctx)
    try:
        e = make(kind, seed, n_init, **kw).fit(ctx.array(rows), ctx.array(y))
    finally:
        undo()
    starts = [s for s in log if len(s) == p + 1]
    if starts and not any(not set(s) & set(out) or leads(ctx, rows, y, s, h_of(n, p, kw.get("alpha", 0.5))) for s in starts):
        ctx.stop()
    b = coefs(ctx, e, p)
    ctx.check(ctx.all([ctx.eq(u, v, 1e-6) for u, v in zip(b, [A, B, C])]), "the plane through the majority is returned")
    ctx.check(ctx.eq(e.scale, 0, 1e-6), "the scale is zero")


def bounded(ctx, kind, n, p, out, seed, what, n_init=6, kw={}):
    """a gross outlier anywhere: the fit stays close to the plane of the bulk and does not depend on its size"""
    rows, y = plane(p, True, n)
    rows = [[ctx.const(v) for v in r] for r in rows]
    y = [ctx.const(v) for v in y]
    i = out[0]
    for k in out[1:]:
        y[k] = ctx.const(500.0 + 3 * k)
    z = ctx.real("z", lo=100, hi=1e6)

    def data(v):
        r2, y2 = [list(r) for r in rows], list(y)
        if what == "up":
            y2[i] = v
        elif what == "down":
            y2[i] = -v
        else:
            r2[i][0] = v
            y2[i] = ctx.const(-20.0)
        return ctx.array(r2), ctx.array(y2)

    log, undo = record(ctx)
    try:
        e = make(kind, seed, n_init, **kw).fit(*data(z))
    finally:
        undo()
    starts = [s for s in log if len(s) == p + 1]
    if kind == "lts" and not any(not set(s) & set(out) for s in starts):
        ctx.stop()
    b = coefs(ctx, e, p)
    ctx.check(ctx.all([ctx.le(u, v + t, 0) & ctx.ge(u, v - t, 0) for u, v, t in zip(b, [A, B, C], [0.5, 0.1, 0.1])]),
              "the coefficients stay close to those of the bulk")
    ctx.check(ctx.gt(e.scale, 0) & ctx.le(e.scale, 0.5, 0), "the scale stays at the level of the noise")
    if what != "leverage" or kind == "lts":
        e0 = make(kind, seed, n_init, **kw).fit(*data(ctx.const(2e6)))
        b0 = coefs(ctx, e0, p)
        ctx.check(ctx.all([ctx.eq(u, v, 1e-4) for u, v in zip(b, b0)]) & ctx.eq(e.scale, e0.scale, 1e-4), "the size of the outlier has no influence")


def scenarios(tier):
    S = Scenario
    K = dict(prec=128, path_timeout=60)
    out = [S("exact fit, one free response", exact, dict(kind="lts", n=8, p=1, out=[3], seed=1)),
           S("exact fit, two free responses", exact, dict(kind="lts", n=8, p=1, out=[6, 2], seed=2, n_init=3)),
           S("exact fit, free feature", exact, dict(kind="lts", n=8, p=1, out=[7], seed=4, x_free=True, n_init=3)),
           S("exact fit p=2", exact, dict(kind="lts", n=9, p=2, out=[4], seed=4, n_init=3)),
           S("exact fit raw", exact, dict(kind="lts", n=9, p=1, out=[0], seed=5, kw=dict(reweighting=False))),
           S("exact fit alpha=0.75", exact, dict(kind="lts", n=10, p=1, out=[5], seed=6, kw=dict(alpha=0.75))),
           S("exact fit, one C-step", exact, dict(kind="lts", n=9, p=1, out=[3, 7], seed=1, n_init=2, kw=dict(n_initial_c_steps=1))),
           S("exact fit, no C-step", exact, dict(kind="lts", n=8, p=1, out=[4], seed=11, n_init=2, kw=dict(n_initial_c_steps=0))),
           S("exact fit, no C-step, contaminated start", exact, dict(kind="lts", n=8, p=1, out=[4], seed=18, n_init=1, kw=dict(n_initial_c_steps=0))),
           S("exact fit raw, contaminated start", exact, dict(kind="lts", n=8, p=1, out=[4], seed=18, n_init=1, kw=dict(n_initial_c_steps=0, reweighting=False))),
           S("exact fit raw, contaminated starts", exact, dict(kind="lts", n=8, p=1, out=[4], seed=16, n_init=4, kw=dict(n_initial_c_steps=0, reweighting=False))),
           S("exact fit MM", exact, dict(kind="mm-lts", n=8, p=1, out=[5], seed=7))]
    for j, kind in enumerate(["lts", "mm-lts", "s", "mm"]):
        for k, what in enumerate(["up", "down", "leverage"]):
            if kind == "s" and what != "leverage" or kind == "mm" and what == "down":
                continue
            out.append(S(f"{kind}, {what}", bounded, dict(kind=kind, n=11 + j, p=1 + (j + k) % 2 if kind != "s" else 1, out=[3 + k], seed=50 if (kind, what) == ('mm', 'leverage') else 10 + 3 * j + k, what=what), **K))
    out.append(S("lts, up, more outliers", bounded, dict(kind="lts", n=13, p=1, out=[3, 7, 8, 10], seed=31, what="up"), **K))
    out.append(S("lts, leverage, more outliers", bounded, dict(kind="lts", n=14, p=1, out=[3, 7, 8, 10], seed=32, what="leverage"), **K))
    return out
