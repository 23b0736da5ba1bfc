"""Regression equivariance: regression shift, slope and scale equivariance of the three estimators."""
import logging

import numpy as np

from symrob.runner import Scenario
from harness.c22 import xy

FUNCTIONS = ["regression.lts.FastLTSRegression.fit", "regression.lts.FastLTSRegression.predict", "regression.s.SRegression.fit",
             "regression.s.SRegression.predict", "regression.mm.MMRegression.fit", "regression.mm.MMRegression.predict"]
BOUNDS = ("concrete samples of n=14..24, p=1..3; every shift in [-100, 100] and every multiple in [-50, 50] of a direction of slopes added to the responses, "
          "every positive scale in [0.01, 1000]; constants of the iterations kept with 128 significant bits; the iterations' relative convergence "
          "tolerance, where there is one, is set to 1e-12")
STUBS = ["exact stand-ins for least squares as in C22, C25, C26"]
BUDGET = 60


def make(kind, seed, rt=1e-12, **k):
    from robpy import regression as rg

    s = lambda: rg.SRegression(n_initial_subsets=3, n_best_subsets=2, scale_tolerance=0.0, relative_tolerance=rt, random_state=seed)
    if kind == "lts":
        return rg.FastLTSRegression(n_initial_subsets=6, n_best_models=2, random_state=seed, **k)
    if kind == "s":
        return s()
    return rg.MMRegression(initial_estimator=s() if kind == "mm" else make("lts", seed), **{"epsilon": 1e-12, **k})


def moved(ctx, kind, n, p, seed, how, lo=1e-2, kw={}):
    X, y = xy(n, p, seed)
    Xs = ctx.array([[ctx.const(float(v)) for v in r] for r in X])
    y0 = ctx.array([ctx.const(float(v)) for v in y])
    k, b = ctx.const(1), ctx.const(0)
    g = [ctx.const(0)] * p
    if how == "shift":
        b = ctx.real("b", lo=-100, hi=100)
    if how == "slope":
        t = ctx.real("g", lo=-50, hi=50)
        g = [t * c for c in [1.0, -0.5, 0.25][:p]]
    if how == "scale":
        k = ctx.real("k", lo=lo, hi=1000)

    def lin(r):
        return sum([a * c for a, c in zip(g[1:], r[1:])], g[0] * r[0]) + b

    logging.getLogger("FastLTS").disabled = True
    y1 = ctx.array([v * k + lin(r) for v, r in zip(y0, Xs)])
    e0, e1 = make(kind, seed, **kw).fit(Xs, y0), make(kind, seed, **kw).fit(Xs, y1)
    T = ctx.array([[ctx.const(float(v)) for v in r] for r in X[:p + 1]])
    a, c = np.asarray(e0.predict(T)).reshape(-1), np.asarray(e1.predict(T)).reshape(-1)
    if how == "scale":
        ctx.check(ctx.all([ctx.eq(c[i] / k, a[i], 1e-4) for i in range(p + 1)]), "predictions follow the factor")
        ctx.check(ctx.eq(e1.scale / k, e0.scale, 1e-4), "the scale follows the factor")
        return
    ctx.check(ctx.all([ctx.eq(c[i], a[i] * k + lin(T[i]), 1e-4) for i in range(p + 1)]), "predictions follow the change of the responses")
    ctx.check(ctx.eq(e1.scale, e0.scale * k, 1e-4), "the scale follows the change of the responses")


def scenarios(tier):
    S = Scenario
    out = []
    for j in range(1 if tier == "quick" else 4):
        for kind in ("lts", "s", "mm", "mm-lts"):
            for how in ("shift", "slope", "scale"):
                out.append(S(f"{kind}, {how}, sample {j}", moved, dict(kind=kind, n=16 + j, p=2 if kind != "mm" else 1, seed=1 + j, how=how), prec=128, path_timeout=60))
    for j, rt in enumerate((1e-3, 1e-4, 1e-5)):
        out.append(S(f"s, small factors, tolerance {rt}", moved, dict(kind="s", n=14 + j, p=1 + j % 2, seed=20 + j, how="scale", lo=10 * rt, kw=dict(rt=rt)), prec=128, path_timeout=60))
    for j in range(3):
        out.append(S(f"mm-lts, units, sample {j}", moved, dict(kind="mm-lts", n=15 + j, p=1 + j % 2, seed=30 + j, how="scale", lo=1e-8, kw=dict(epsilon=1e-6)), prec=128, path_timeout=60))
    for how in ("shift", "scale"):
        out.append(S(f"lts p=3, {how}", moved, dict(kind="lts", n=20, p=3, seed=8, how=how), prec=128, path_timeout=60))
        out.append(S(f"lts without reweighting, {how}", moved, dict(kind="lts", n=15, p=1, seed=9, how=how, kw=dict(reweighting=False)), prec=128, path_timeout=60))
    return out
