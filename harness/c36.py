"""Estimators carry no hidden state: refits, other instances, clones, repeated use."""
import inspect
import logging
import types

import numpy as np
import pandas as pd

from symrob.runner import Scenario
from harness.c14 import sample
from harness.c22 import xy

FUNCTIONS = ["univariate.base.RobustScale.fit", "covariance.base.RobustCovariance.fit", "covariance.mcd.FastMCD.fit", "covariance.mcd.DetMCD.fit",
             "covariance.ogk.OGK.fit", "covariance.kendall.KendallTau.fit", "covariance.wrapping.WrappingCovariance.fit", "covariance.cellmcd.CellMCD.fit",
             "covariance.initial_ddcw.InitialDDCW.fit", "regression.lts.FastLTSRegression.fit", "regression.s.SRegression.fit",
             "regression.mm.MMRegression.fit", "pca.robpca.ROBPCA.fit", "pca.spca.PCALocantore.fit", "preprocessing.scaling.RobustScaler.fit",
             "preprocessing.transfo.RobustPowerTransformer.fit", "preprocessing.data_cleaner.DataCleaner.fit", "outliers.ddc.DDC.fit"]
STUBS = ["random generator: the real numpy generator with concrete seeds", "pandas frames of symbolic cells as in C32",
         "iterative estimators with constants of 128 significant bits"]
BOUNDS = ("every estimator class in one to three configurations: data of n=8..24, p=1..3 with a free shift in [-1000, 1000] (of one column, the responses or "
          "everything) or one free cell; histories of two or three fits on data of different size and dimension, two instances, a clone, repeated predictions")
BUDGET = 200
NAN = float("nan")


def plain(v):
    return isinstance(v, (bool, int, float, str, type(None), np.integer, np.floating)) and not isinstance(v, np.ndarray)


def dead(v):
    return isinstance(v, (logging.Logger, types.FunctionType, types.BuiltinFunctionType, types.MethodType, type, np.random.Generator,
                          np.random.RandomState)) or inspect.isroutine(v)


def params(e):
    return [k for k in inspect.signature(type(e).__init__).parameters if k != "self"]


def state(v, skip=(), depth=0):
    """nested plain picture of a fitted object: arrays and tables by value, objects by their attributes"""
    if dead(v):
        return None
    if isinstance(v, np.ndarray):
        return ("array", v.shape, list(v.reshape(-1)))
    if isinstance(v, pd.DataFrame):
        return ("frame", list(v.columns), list(v.index), [state(v[c].to_numpy()) for c in v.columns])
    if isinstance(v, pd.Series):
        return ("series", list(v.index), state(v.to_numpy()))
    if isinstance(v, dict):
        return ("dict", [(str(k), state(x, (), depth + 1)) for k, x in v.items()])
    if isinstance(v, (list, tuple)):
        return ("list", [state(x, (), depth + 1) for x in v])
    if isinstance(v, (set, frozenset)):
        return ("list", [state(x) for x in sorted(v)])
    if hasattr(v, "params") and not type(v).__module__.startswith("robpy"):
        return ("model", state(np.asarray(v.params)))
    if type(v).__module__.split(".")[0] in ("robpy", "sklearn") and depth < 4:
        return ("object", type(v).__name__, [(k, state(x, (), depth + 1)) for k, x in sorted(vars(v).items()) if k not in skip and not dead(x)])
    if type(v).__module__.split(".")[0] in ("statsmodels",):
        return None
    if hasattr(v, "coef_"):
        return ("model", state(np.asarray(v.coef_)), state(np.asarray(v.intercept_)))
    return v


def number(v):
    return not isinstance(v, (str, bytes, bool, type(None), tuple, list)) and not plain(v)


def same(ctx, a, b, tol=1e-9):
    """the conditions under which two pictures are equal"""
    if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
        if type(a) is not type(b):
            return [False]
        if isinstance(a, tuple) and len(a) == 3 and a[0] == "object" == b[0]:
            if a[1] != b[1]:
                return [False]
            d = dict(a[2])
            return [c for k, x in b[2] for c in (same(ctx, d[k], x, tol) if k in d else [False])]
        if len(a) != len(b):
            return [False]
        return [c for x, y in zip(a, b) for c in same(ctx, x, y, tol)]
    if a is None or b is None or isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
        return [a is b or a == b]
    if a is b:
        return []
    if isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)):
        return [bool(a) == bool(b)]
    try:
        return [ctx.eq(a, b, tol) | (ctx.is_nan(a) & ctx.is_nan(b))]
    except (TypeError, ValueError, AttributeError):
        return []


def agree(ctx, a, b, label):
    cs = same(ctx, a, b)
    ctx.check(all(c for c in cs if isinstance(c, bool)), label)
    ctx.check(ctx.all([c for c in cs if not isinstance(c, bool)]), label)


class Case:
    """one estimator: how to make it, its data and what is read from it"""

    def __init__(self, make, data, n, p, read=None, free=None, seed=1, fit=None, other=(3, 1), prec=None, clone=True, first=None, same=True):
        self.__dict__.update(locals())


def cov_out(e, B):
    return [e.location_, e.covariance_] + ([e.mahalanobis(B)] if not np.asarray(B).dtype == float or np.isfinite(np.asarray(B, dtype=float)).all() else [])


def cases():
    from robpy.covariance import DetMCD, FastMCD, KendallTau, OGK, WrappingCovariance
    from robpy.covariance.cellmcd import CellMCD
    from robpy.covariance.initial_ddcw import InitialDDCW
    from robpy.outliers.ddc import DDC
    from robpy.pca.robpca import ROBPCA
    from robpy.pca.spca import PCALocantore
    from robpy.preprocessing.data_cleaner import DataCleaner
    from robpy.preprocessing.scaling import RobustScaler
    from robpy.preprocessing.transfo import RobustPowerTransformer
    from robpy.regression import FastLTSRegression, MMRegression, SRegression
    from robpy.univariate import CellwiseOneStepM, HuberOneStepM, OneStepWrapping, Qn, Tau, UnivariateMCD

    ls = lambda e, B: [e.location, e.scale]
    pr = lambda e, B: [e.predict(B[0])]
    lts = dict(n_initial_subsets=5, n_best_models=2)
    s = dict(n_initial_subsets=3, n_best_subsets=2, relative_tolerance=1e-3, scale_tolerance=0.0)
    m = dict(epsilon=0.0, max_iterations=2)
    q = dict(verbosity=logging.CRITICAL)
    nan = lambda ctx, e, A: e.fit(holes(ctx, A), ignore_nan=True)
    shared = FastLTSRegression(n_initial_subsets=6, n_best_models=1)
    pca = lambda e, B: [e.transform(B), e.project(B), e.components_]
    tr = lambda e, B: [e.transform(B), e.inverse_transform(e.transform(B))]
    out = {
        "UnivariateMCD": Case(lambda: UnivariateMCD(), "vec", 9, 1, ls, free=True, clone=False, first=nan),
        "UnivariateMCD, alpha": Case(lambda: UnivariateMCD(alpha=0.75, consistency_correction=False), "vec", 8, 1, ls, free=True, clone=False, first=nan),
        "Qn": Case(lambda: Qn(), "vec", 7, 1, lambda e, B: [e.scale], free=True, clone=False, first=nan),
        "Tau": Case(lambda: Tau(), "vec", 8, 1, ls, free=True, clone=False, first=nan),
        "HuberOneStepM": Case(lambda: HuberOneStepM(), "vec", 9, 1, ls, free=True, clone=False, first=nan),
        "CellwiseOneStepM": Case(lambda: CellwiseOneStepM(), "vec", 9, 1, ls, free=True, clone=False, first=nan),
        "OneStepWrapping": Case(lambda: OneStepWrapping(), "vec", 9, 1, ls, free=True, clone=False, first=nan),
        "FastMCD": Case(lambda: FastMCD(n_initial_subsets=4, n_best_subsets=2, random_seed=3, **q), "mat", 12, 2, cov_out),
        "FastMCD, alpha and groups": Case(lambda: FastMCD(alpha=0.75, n_initial_subsets=4, n_best_subsets=2, n_partitions=2, random_seed=0, **q), "mat", 24, 2, cov_out),
        "DetMCD": Case(lambda: DetMCD(**q), "mat", 14, 2, cov_out),
        "DetMCD, alpha": Case(lambda: DetMCD(alpha=12, reweighting=False, **q), "mat", 15, 2, cov_out, other=(1, 1)),
        "OGK": Case(lambda: OGK(), "mat", 10, 2, cov_out),
        "OGK, reweighted": Case(lambda: OGK(reweighting=True, n_iterations=1), "mat", 11, 3, cov_out),
        "KendallTau": Case(lambda: KendallTau(), "mat", 7, 2, cov_out, free=True),
        "WrappingCovariance": Case(lambda: WrappingCovariance(), "mat", 7, 2, cov_out, free=True),
        "WrappingCovariance, table": Case(lambda: WrappingCovariance(), "frame", 10, 3, cov_out),
        "CellMCD": Case(lambda: CellMCD(alpha=0.5, **q), "frame", 16, 2, cov_out, prec=128),
        "InitialDDCW": Case(lambda: InitialDDCW(alpha=0.5, **q), "frame", 15, 2, cov_out, prec=128),
        "FastLTSRegression": Case(lambda: FastLTSRegression(**lts), "reg", 16, 1, pr, prec=256,
                                  first=lambda ctx, e, A: e.fit(*A, initial_weights=np.array([40.0, -3.0]), verbosity=logging.CRITICAL)),
        "FastLTSRegression, raw": Case(lambda: FastLTSRegression(alpha=0.75, reweighting=False, random_state=0, **lts), "reg", 18, 2, pr, prec=256),
        "SRegression": Case(lambda: SRegression(**s), "reg*", 13, 1, pr, prec=128),
        "SRegression, no intercept": Case(lambda: SRegression(fit_intercept=False, **s), "reg*", 14, 2, pr, prec=128),
        "MMRegression, own S": Case(lambda: MMRegression(SRegression(**s), **m), "reg*", 13, 1, pr, prec=128),
        "MMRegression": Case(lambda: small_default(MMRegression, s, **m), "reg*", 13, 1, pr, prec=128),
        "MMRegression, exact fit": Case(lambda: MMRegression(shared), "exact", 12, 1, pr, prec=128, clone=False),
        "MMRegression, no iterations": Case(lambda: small_default(MMRegression, s, epsilon=0.0, max_iterations=0), "reg*", 13, 1, pr, prec=128),
        "ROBPCA": Case(lambda: ROBPCA(n_components=2, random_seed=1, **q), "mat", 14, 3, pca, prec=128, other=(2, 1)),
        "ROBPCA, no final MCD": Case(lambda: ROBPCA(n_components=1, final_MCD_step=False, random_seed=0, **q), "mat", 12, 2, pca, prec=128),
        "PCALocantore": Case(lambda: PCALocantore(n_components=1), "mat", 9, 2, pca, prec=128),
        "PCALocantore, all components": Case(lambda: PCALocantore(n_components=2), "mat", 9, 2, pca, prec=128),
        "RobustScaler": Case(lambda: RobustScaler(), "mat", 8, 2, tr, free=True, first=nan),
        "RobustScaler, Tau": Case(lambda: RobustScaler(scale_estimator=Tau(), with_centering=False), "frame", 8, 2, tr, free=True, first=nan),
        "RobustPowerTransformer, Yeo-Johnson": Case(lambda: RobustPowerTransformer(method="yeojohnson"), "vec", 8, 1, tr, prec=128),
        "RobustPowerTransformer, Box-Cox": Case(lambda: RobustPowerTransformer(method="boxcox", lambda_range=(-2.0, 3.0)), "pos", 8, 1, tr, prec=128),
        "RobustPowerTransformer, automatic": Case(lambda: RobustPowerTransformer(method="auto"), "pos", 8, 1, tr, prec=128, other=(3, 0)),
        "DataCleaner": Case(lambda: DataCleaner(), "clean", 8, 3, lambda e, B: [e.transform(B), e.dropped_columns, e.dropped_rows]),
        "DDC": Case(lambda: DDC(), "frame", 14, 2, lambda e, B: [e.predict(B), e.impute(B)], clone=False),
    }
    return out


def small_default(cls, s, **k):
    """the default estimator, but with few starting values of the shared default initial estimator"""
    e = cls(**k)
    e.initial_estimator.set_params(**s)
    return e


def draw(ctx, kind, n, p, seed, b=0.0, z=None):
    """data of one kind: concrete sample shifted by b, with one free cell z"""
    if kind[:3] in ("reg", "exa"):
        X, y = xy(n, p, seed)
        if kind == "exact":
            y = X @ np.arange(1, p + 1)
            y[:2] += 7
        y = [ctx.const(float(v)) for v in y]
        return ctx.array([[ctx.const(float(v)) for v in r] for r in X]), ctx.array([v * b if kind[-1] == "*" else v + b for v in y])
    if kind == "pos":
        g = np.random.default_rng(seed)
        v = g.integers(4, 40, n) / 8
        return ctx.array([ctx.const(float(t)) * b for t in v])
    rows = [[ctx.const(float(v)) for v in r] for r in np.atleast_2d(sample(n, p, seed).T).T]
    if kind == "vec":
        v = [r[0] for r in rows]
        if z is not None:
            v[n // 2] = z
        return ctx.array([t + b for t in v])
    if z is not None:
        rows[n // 2][0] = z
    rows = [[r[0] + b] + r[1:] for r in rows]
    if kind == "mat":
        return ctx.array(rows)
    if kind == "clean":
        rows = [r + [v] for r, v in zip(rows, [1, 2] * n)]
        rows[1][0] = NAN
        return ctx.frame(rows, [f"c{j}" for j in range(p + 1)], [f"r{i}" for i in range(n)])
    return ctx.frame(rows, [f"c{j}" for j in range(p)])


def holes(ctx, A):
    """the same data with two missing values"""
    if isinstance(A, pd.DataFrame):
        rows = [list(r) for r in A.to_numpy()]
        rows[1][0] = rows[3][-1] = NAN
        return ctx.frame(rows, list(A.columns))
    A = A.copy()
    for i in (1, 4):
        A[i, ...] = NAN
    return A


def copy_(D):
    if isinstance(D, tuple):
        return tuple(copy_(d) for d in D)
    return state(D)


def do(c, e, D):
    """fit with the warnings of the regression estimators off"""
    if c.data[:3] in ("reg", "exa"):
        return e.fit(*D) if "MM" in type(e).__name__ else e.fit(*D, verbosity=logging.CRITICAL)
    return e.fit(D)


def read(c, e, D):
    return [state(v) for v in c.read(e, D)]


def full(c, e):
    return state(e, skip=params(e))


def body(ctx, which, how):
    from sklearn.base import clone

    c = cases()[which]
    pos = c.data == "pos" or c.data[-1] == "*"
    b = z = None
    if c.free:
        z = ctx.real("z", lo=-1000, hi=1000)
    else:
        b = ctx.real("k", lo=0.5, hi=2) if pos else ctx.real("b", lo=-1000, hi=1000)
    B = draw(ctx, c.data, c.n, c.p, c.seed, (1.0 if pos else 0.0) if b is None else b, z)
    dn, dp = (0, 0) if "same size" in how or "options" in how else c.other
    kind = "reg*" if c.data == "exact" else c.data
    A = draw(ctx, kind, c.n + dn, c.p + (0 if c.data in ("vec", "pos") else dp), c.seed + 1, 1.0 if pos else 0.0)
    e = c.make()
    before = {k: getattr(e, k) for k in params(e) if plain(getattr(e, k, object()))}
    keep = copy_(B)
    if how[:5] == "refit":
        if "options" in how:
            c.first(ctx, e, A)
        else:
            do(c, e, A)
        if "options" not in how:
            read(c, e, A)
        do(c, e, B)
        f = c.make()
        do(c, f, B)
        agree(ctx, read(c, e, B), read(c, f, B), "a refitted estimator gives what a fresh one gives")
        agree(ctx, full(c, e), full(c, f), "a refit leaves nothing of the earlier fit in the attributes")
    elif how == "turned":
        f = c.make()
        do(c, f, B)
        for k in range(1, 4):
            rows = [list(r) for r in draw(ctx, c.data, c.n, c.p, c.seed)]
            for _ in range(k):
                rows = [[-r[1], r[0]] + r[2:] for r in rows]
            do(c, e, ctx.array(rows))
            do(c, e, B)
            agree(ctx, read(c, e, B), read(c, f, B), "an estimator refitted after turned data gives what a fresh one gives")
            agree(ctx, full(c, e), full(c, f), "a refit leaves nothing of the earlier fit in the attributes")
    elif how == "again":
        do(c, e, B)
        r, v = read(c, e, B), full(c, e)
        agree(ctx, read(c, e, B), r, "using a fitted estimator twice gives the same")
        agree(ctx, full(c, e), v, "using a fitted estimator does not change it")
        do(c, e, B)
        agree(ctx, read(c, e, B), r, "fitting the same data again gives the same")
    elif how == "other":
        do(c, e, B)
        r, v = read(c, e, B), full(c, e)
        f = c.make()
        do(c, f, A)
        read(c, f, A)
        agree(ctx, full(c, e), v, "fitting another instance does not change this one")
        agree(ctx, read(c, e, B), r, "fitting another instance does not change the results of this one")
    else:
        do(c, e, A)
        f = clone(e)
        do(c, f, B)
        g = c.make()
        do(c, g, B)
        agree(ctx, read(c, f, B), read(c, g, B), "a clone behaves like a new estimator with the same settings")
    for k, v in before.items():
        ctx.check(getattr(e, k) is v or getattr(e, k) == v, "fitting leaves the settings of the estimator alone")
    agree(ctx, copy_(B), keep, "the data handed in are unchanged")


def scenarios(tier):
    out = []
    for w, c in cases().items():
        for how in ("refit", "refit, same size", "refit after other options", "again", "other", "clone"):
            if how == "clone" and not c.clone or "options" in how and c.first is None:
                continue
            kw = dict(path_timeout=60, **(dict(prec=c.prec) if c.prec else {}))
            out.append(Scenario(f"{w}: {how}", body, dict(which=w, how=how), **kw))
            if how == "again" and c.data == "mat" and c.p > 1 and not c.free:
                out.append(Scenario(f"{w}: turned", body, dict(which=w, how="turned"), **kw))
    return out
