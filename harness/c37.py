"""Seeds: same data and same seed give the same result, whatever the global random state, which stays as it is."""
import logging

import numpy as np

from symrob.runner import Scenario
from harness import c36
from harness.c36 import Case, agree, cov_out, do, draw, full, read, small_default, state

FUNCTIONS = [f for f in c36.FUNCTIONS if not f.startswith("univariate")] + [
    "utils.outlyingness.stahel_donoho", "covariance.mcd.FastMCD._get_initial_subsets", "regression.lts.FastLTSRegression._get_initial_model"]
STUBS = ["random generators: the real numpy ones; draws from a generator created without a seed are recorded", "pandas frames of symbolic cells as in C32",
         "iterative estimators with constants of 128 significant bits"]
BOUNDS = ("every multivariate, regression, PCA and preprocessing estimator, the random ones with seeds 0, 1, 3 and their default: data of n=8..24, p=1..3 with a "
          "free shift in [-1000, 1000] or a free scale in [0.5, 2]; two runs under different global random states")
BUDGET = 120
DRAWS = ("choice", "integers", "random", "permutation", "permuted", "shuffle", "normal", "standard_normal", "uniform", "bytes", "multivariate_normal")
LEGACY = ("choice", "randint", "random_sample", "random", "rand", "randn", "permutation", "shuffle", "normal", "standard_normal", "uniform", "bytes",
          "multivariate_normal")


def logging_type(base, names, log):
    """a generator type whose draws are recorded when it was created without a seed"""

    def method(n):
        def draw_(self, *a, **k):
            if getattr(self, "unseeded", False):
                log.append(n)
            return getattr(base, n)(self, *a, **k)

        return draw_

    return type(base.__name__, (base,), {n: method(n) for n in names if hasattr(base, n)})


def watch(ctx):
    """draws from generators that were created without a seed"""
    log = []
    real = {n: getattr(np.random, n) for n in ("default_rng", "RandomState")}
    Gen = logging_type(np.random.Generator, DRAWS, log)
    entropy = np.random.SeedSequence(12345)

    def default_rng(seed=None):
        if seed is not None:
            return real["default_rng"](seed)
        g = Gen(np.random.PCG64(entropy.spawn(1)[0]))
        g.unseeded = True
        return g

    class RandomState(logging_type(real["RandomState"], LEGACY, log)):
        def __init__(self, seed=None):
            self.unseeded = seed is None
            super().__init__(int(entropy.spawn(1)[0].generate_state(1)[0]) if seed is None else seed)

    class R:
        pass

    R.default_rng, R.RandomState = staticmethod(default_rng), RandomState
    if ctx.symbolic:
        from symrob import patch

        patch.RNG = R
        ctx.cleanup.append(lambda: setattr(patch, "RNG", None))
    else:
        np.random.default_rng, np.random.RandomState = default_rng, RandomState

        def undo():
            for n, v in real.items():
                setattr(np.random, n, v)

        ctx.cleanup.append(undo)
    return log


class Directions:
    """stahel_donoho as an estimator"""

    def __init__(self, seed):
        self.seed = seed

    def fit(self, X):
        from robpy.utils.outlyingness import stahel_donoho

        self.out_ = stahel_donoho(X, n_dir=4, random_seed=self.seed)
        return self


def cases():
    from robpy.covariance import FastMCD
    from robpy.pca.robpca import ROBPCA
    from robpy.regression import FastLTSRegression, SRegression

    q = dict(verbosity=logging.CRITICAL)
    pr = lambda e, B: [e.predict(B[0])]
    out = {k: c for k, c in c36.cases().items() if c.data not in ("vec", "clean", "pos")}
    out.update({
        "FastMCD, one start, seed 0": Case(lambda: FastMCD(n_initial_subsets=1, n_best_subsets=1, random_seed=0, **q), "mat", 13, 2, cov_out, seed=5),
        "FastMCD, one start, seed 1": Case(lambda: FastMCD(alpha=0.6, n_initial_subsets=1, n_best_subsets=1, random_seed=1, **q), "mat", 20, 3, cov_out, seed=6),
        "FastMCD, groups, seed 0": Case(lambda: FastMCD(n_initial_subsets=2, n_best_subsets=1, n_partitions=2, random_seed=0, **q), "mat", 24, 2, cov_out, seed=7),
        "FastLTSRegression, one start, seed 0": Case(lambda: FastLTSRegression(n_initial_subsets=1, n_best_models=1, random_state=0), "reg", 17, 2, pr, prec=256),
        "SRegression, one start, seed 0": Case(lambda: SRegression(n_initial_subsets=1, n_best_subsets=1, random_state=0, relative_tolerance=1e-3,
                                                                   scale_tolerance=0.0), "reg*", 13, 1, pr, prec=128),
        "ROBPCA, seed 0": Case(lambda: ROBPCA(n_components=1, random_seed=0, **q), "mat", 13, 2, lambda e, B: [e.transform(B)], prec=128, seed=4),
        "stahel_donoho, seed 0": Case(lambda: Directions(0), "mat", 9, 2, lambda e, B: [e.out_], seed=4),
        "stahel_donoho, seed 3": Case(lambda: Directions(3), "mat", 8, 3, lambda e, B: [e.out_], seed=5),
    })
    return out


def unchanged(a, b):
    return a[0] == b[0] and a[2:] == b[2:] and np.array_equal(a[1], b[1])


def body(ctx, which, twins=False):
    c = cases()[which]
    star = c.data[-1] == "*"
    b = ctx.real("k", lo=0.5, hi=2) if star else ctx.real("b", lo=-1000, hi=1000)
    z = ctx.const(0.75) if c.free else None
    B = draw(ctx, c.data, c.n, c.p, c.seed, b, z)
    if twins:
        for i, j in ((1, 0), (2, 0), (5, 4)):
            B[i] = B[j]
    log = watch(ctx)
    old = np.random.get_state()
    ctx.cleanup.append(lambda: np.random.set_state(old))
    runs = []
    for s in (11, 5):
        np.random.seed(s)
        if s == 5:
            np.random.random(7)
        before = np.random.get_state()
        e = c.make()
        do(c, e, B)
        runs.append((read(c, e, B), full(c, e)))
        ctx.check(unchanged(before, np.random.get_state()), "the global random state is neither used nor changed")
    agree(ctx, runs[0][0], runs[1][0], "same data and seed, same result")
    agree(ctx, runs[0][1], runs[1][1], "same data and seed, same fitted attributes")
    ctx.check(not log, "with a seed given, no unseeded generator is drawn from")


def scenarios(tier):
    out = [Scenario(w, body, dict(which=w), path_timeout=60, **(dict(prec=c.prec) if c.prec else {})) for w, c in cases().items()]
    for w in ("FastMCD", "FastMCD, one start, seed 0", "FastMCD, groups, seed 0", "ROBPCA", "ROBPCA, seed 0", "stahel_donoho, seed 0", "stahel_donoho, seed 3"):
        c = cases()[w]
        out.append(Scenario(f"{w}, coinciding observations", body, dict(which=w, twins=True), path_timeout=60, **(dict(prec=c.prec) if c.prec else {})))
    return out
