"""Binds the real robpy modules to the symbolic domain.

The robpy source is imported unmodified from /repo; afterwards the names its modules imported from
numpy / scipy / sklearn / statsmodels are rebound (by identity) to exact symbolic counterparts.
Every replacement below is a *stub* in the sense of the claim and is listed in DESIGN.md.
"""
from __future__ import annotations

import builtins
import importlib
import math
import sys
import types
from fractions import Fraction

import numpy as np
import pandas as pd

from . import arrays as A
from . import core, frames, ufs
from .arrays import SymArray, has_sym, mk, wrap
from .core import INF, NAN, NEG, POS, S0, S1, ZERO, Sym, Unsupported


def lift(x):
    if isinstance(x, Sym):
        return A._arr(x)
    if isinstance(x, (list, tuple)) and has_sym(x):
        return mk(x)
    if isinstance(x, np.ndarray) and not isinstance(x, SymArray) and x.dtype == object and has_sym(x):
        return wrap(x)
    return x


def lower(r):
    if isinstance(r, SymArray) and r.ndim == 0:
        return r[()]
    return r


# ---------------------------------------------------------------------------------------- numpy
class NPProxy(types.ModuleType):
    """numpy with symbolic creation functions and dispatch for scalar/list Sym arguments."""

    def __init__(self, mod, over):
        super().__init__(mod.__name__)
        self.__dict__["_m"] = mod
        self.__dict__["_over"] = over
        self.__dict__["_cache"] = {}

    def __getattr__(self, n):
        c = self._cache
        if n in c:
            return c[n]
        if n in self._over:
            v = self._over[n]
        else:
            v = getattr(self._m, n)
            if isinstance(v, np.ufunc):
                v = _UfuncProxy(v)
            elif isinstance(v, types.ModuleType):
                pass
            elif isinstance(v, type):
                pass
            elif callable(v):
                v = _wrapfn(v)
        c[n] = v
        return v

    def __dir__(self):
        return dir(self._m)


class PDProxy(types.ModuleType):
    """pandas with to_numeric for symbolic columns"""

    def __getattr__(self, n):
        over = {"to_numeric": frames.to_numeric, "DataFrame": frames.FrameMaker, "Series": frames.SeriesMaker}
        return over[n] if n in over else getattr(pd, n)

    def __dir__(self):
        return dir(pd)


class _UfuncProxy:
    def __init__(self, u):
        self._u = u
        self.__name__ = u.__name__

    def __call__(self, *a, **k):
        if any(isinstance(x, (Sym, list, tuple)) or (isinstance(x, np.ndarray) and x.dtype == object) for x in a):
            a = [lift(x) for x in a]
        return lower(self._u(*a, **k))

    def __getattr__(self, n):
        v = getattr(self._u, n)
        if callable(v):
            return lambda *a, **k: lower(v(*[lift(x) for x in a], **k))
        return v

    def __hash__(self):
        return hash(self._u)

    def __eq__(self, o):
        return o is self or o is self._u or (isinstance(o, _UfuncProxy) and o._u is self._u)


def _wrapfn(f):
    def g(*a, **k):
        a = [lift(x) for x in a]
        if k:
            k = {n: lift(x) for n, x in k.items()}
        return lower(f(*a, **k))

    if getattr(f, "__name__", "").endswith("_like"):  # a 0-d array, not a scalar, also natively
        def g(*a, **k):
            return f(*[lift(x) for x in a], **{n: lift(x) for n, x in k.items()})
    g.__name__ = getattr(f, "__name__", "f")
    g.__wrapped__ = f
    return g


def _dt_sym(dtype):
    """is this dtype one we represent symbolically?"""
    if dtype is None or dtype is float or dtype is object:
        return True
    try:
        return np.dtype(dtype).kind in "fO"
    except TypeError:
        return True


def _zeros(shape, dtype=None, order="C", **k):
    return A.szeros(shape) if _dt_sym(dtype) else np.zeros(shape, dtype)


def _ones(shape, dtype=None, order="C", **k):
    return A.sfull(shape, S1) if _dt_sym(dtype) else np.ones(shape, dtype)


def _full(shape, fill_value, dtype=None, order="C", **k):
    if dtype is None and isinstance(fill_value, (int, bool, np.integer, np.bool_, str)):
        return np.full(shape, fill_value)
    if not _dt_sym(dtype):
        return np.full(shape, fill_value, dtype)
    if isinstance(fill_value, (list, tuple, np.ndarray)):
        out = A.szeros(shape)
        out[...] = fill_value
        return out
    return A.sfull(shape, Sym.of(fill_value))


def _eye(N, M=None, k=0, dtype=None, **kw):
    return wrap(np.eye(N, M, k)) if _dt_sym(dtype) else np.eye(N, M, k, dtype=dtype)


def _array(obj, dtype=None, copy=True, ndmin=0, **k):
    if isinstance(obj, (Sym, SymArray)) or has_sym(obj):
        a = obj.copy() if isinstance(obj, SymArray) and copy else lift(obj)
        if isinstance(a, SymArray) and dtype is not None and (not _dt_sym(dtype) or np.dtype(dtype).itemsize < 8):
            a = a.astype(dtype)
        while a.ndim < ndmin:
            a = a[None]
        return a
    r = np.array(obj, dtype=dtype, copy=copy, ndmin=ndmin, **k)
    return r


def _asarray(obj, dtype=None, *a, **k):
    if isinstance(obj, SymArray) and _dt_sym(dtype) and (dtype is None or np.dtype(dtype).itemsize == 8):
        return obj
    return _array(obj, dtype, copy=False)


def _vectorize(f, **k):
    def g(*a):
        a = [A._arr(lift(x)) for x in a]
        b = np.broadcast_arrays(*[np.asarray(x, dtype=object) for x in a])
        out = np.empty(b[0].shape, dtype=object)
        for i in np.ndindex(*out.shape):
            out[i] = f(*[x[i] for x in b])
        return A._fix(out)

    return g


class _FloatCast:
    """np.float64 & friends used as conversion functions"""


_OVER = {
    "zeros": _zeros, "ones": _ones, "empty": _zeros, "full": _full, "eye": _eye,
    "identity": lambda n, dtype=None: _eye(n, dtype=dtype), "array": _array, "asarray": _asarray,
    "asanyarray": _asarray, "ascontiguousarray": _asarray, "asarray_chkfinite": _asarray,
    "vectorize": _vectorize, "fromiter": lambda it, dtype=None, count=-1: _array(list(it), dtype),
}

RNG = None  # random stub installed by a harness: object with default_rng / RandomState style API


class _RandomProxy(types.ModuleType):
    def __getattr__(self, n):
        if RNG is not None and hasattr(RNG, n):
            return getattr(RNG, n)
        return getattr(np.random, n)


np_proxy = NPProxy(np, _OVER)
linalg_proxy = NPProxy(np.linalg, {"LinAlgError": np.linalg.LinAlgError})
_OVER["linalg"] = linalg_proxy
_OVER["random"] = _RandomProxy("numpy.random")


# ---------------------------------------------------------------------------------------- builtins
class _BType(type):
    def __instancecheck__(cls, x):
        if isinstance(x, Sym):
            return cls._b is float
        return isinstance(x, cls._b)

    def __eq__(cls, o):
        return o is cls or o is cls._b

    def __hash__(cls):
        return hash(cls._b)


def _f_int(x=0, *a):
    if isinstance(x, SymArray):
        x = x.item()
    if isinstance(x, Sym):
        if x.sp:
            raise ValueError("cannot convert float NaN to integer")
        if x.is_const():
            return int(x.num.const())
        return int(x.trunc())
    return int(x, *a)


def _f_float(x=0.0):
    if isinstance(x, SymArray) and x.size == 1:
        x = x.reshape(-1)[0]
    if isinstance(x, Sym):
        return x
    return float(x)


def _mkproxy(b, f):
    def new(cls, *a):
        return f(*a)

    return _BType(b.__name__, (), {"_b": b, "__new__": new, "dtype": np.dtype(b)})


p_int = _mkproxy(int, _f_int)
p_float = _mkproxy(float, _f_float)


def p_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    flat = []
    for y in ts:
        if isinstance(y, types.UnionType):
            flat.extend(y.__args__)
        else:
            flat.append(y)
    if isinstance(x, Sym):
        for y in flat:
            if y in (p_float, float, np.floating, np.float64, object) or y is Sym:
                return True
            if getattr(y, "__name__", "") in ("Number", "Real"):
                return True
        k = getattr(x, "_pyint", False)
        return False
    return any(isinstance(x, y._b if isinstance(y, _BType) else y) for y in flat)


class _MathProxy(types.ModuleType):
    def __getattr__(self, n):
        f = getattr(math, n)
        if not callable(f):
            return f

        def g(*a, **k):
            a = [lower(lift(x)) if isinstance(x, SymArray) else x for x in a]
            if any(isinstance(x, Sym) for x in a):
                x = Sym.of(a[0])
                if n in ("sqrt", "exp", "log", "tanh", "log2", "log10", "log1p", "expm1"):
                    if n == "log" and len(a) > 1:
                        return x.log() / Sym.of(a[1]).log()
                    return getattr(x, n)()
                if n == "floor":
                    return int(x.floor())
                if n == "ceil":
                    return int(x.ceil())
                if n == "fabs":
                    return abs(x)
                if n == "isnan":
                    return x.isnan()
                if n == "isfinite":
                    return x.isfinite()
                if n == "isinf":
                    return x.isinf()
                if n == "pow":
                    return x ** a[1]
                if n == "isclose":
                    y = Sym.of(a[1])
                    rt, at = k.get("rel_tol", 1e-9), k.get("abs_tol", 0.0)
                    if x.sp or y.sp:
                        return x.sp == y.sp and x.sp != "nan"
                    d = abs(x - y)
                    # |x-y| <= max(rt*max(|x|,|y|), at)
                    if bool(d <= Sym.of(rt) * abs(x)) or bool(d <= Sym.of(rt) * abs(y)):
                        return True
                    return bool(d <= at)
                if n == "hypot":
                    return A.ssum([Sym.of(v) * Sym.of(v) for v in a]).sqrt()
                if n == "fsum":
                    return A.ssum([Sym.of(v) for v in a[0]])
                raise Unsupported(f"math.{n}")
            if n in ("fsum", "prod", "dist") and any(has_sym(x) for x in a):
                if n == "fsum":
                    return A.ssum([Sym.of(v) for v in a[0]])
                if n == "prod":
                    return A.sprod([Sym.of(v) for v in a[0]])
                raise Unsupported("math.dist")
            return f(*a, **k)

        return g


math_proxy = _MathProxy("math")


# ---------------------------------------------------------------------------------------- scipy
_NORMAL_MAD = 0.6744897501960817


def median_abs_deviation(x, axis=0, center=None, scale=1.0, nan_policy="propagate"):
    x = wrap(A._arr(lift(x)))
    if isinstance(scale, str):
        if scale.lower() != "normal":
            raise ValueError(f"{scale} is not a valid scale value.")
        scale = _NORMAL_MAD
    if nan_policy == "omit":
        med = A._nan_or(A._median)

        def f(xs):
            xs = [v for v in xs if v.sp != "nan"]
            return g(xs) if xs else NAN
    else:
        f = None

    def g(xs):
        if not xs or any(v.sp == "nan" for v in xs):
            if nan_policy == "raise" and xs:
                raise ValueError("The input contains nan values")
            return NAN
        c = A._median(xs) if center is None or center is np.median or center is np_proxy.median else Sym.of(
            lower(center(mk(xs), axis=None)))
        return A._median([abs(v - c) for v in xs])

    r = A._axis_apply(x, axis, f or g)
    return r / Sym.of(scale) if not (isinstance(scale, float) and scale == 1.0) else r


class _DistProxy:
    """scipy.stats distribution: exact call for concrete arguments, monotone UF for a symbolic quantile"""

    def __init__(self, d):
        self._d = d

    def __getattr__(self, n):
        f = getattr(self._d, n)
        if not callable(f):
            return f

        def g(*a, **k):
            ca, ok = A._concretize([lift(x) if not isinstance(x, Sym) else x for x in a])
            ck, ok2 = A._concretize(k)
            if ok and ok2:
                return f(*ca, **ck)
            x = a[0]
            rest, _ = A._concretize(list(a[1:]))
            if not ok2 or not _:
                raise Unsupported(f"{self._d.name}.{n} with symbolic parameters")
            pars = [float(v) for v in rest] + [float(v) for _, v in sorted(ck.items())]
            tag = f"{self._d.name}.{n}{pars}"

            def one(v):
                fn = lambda q: f(q, *rest, **ck)  # noqa
                if n == "cdf":
                    return ufs.monotone_uf(core.ENGINE, tag, v, fn, 0, 1)
                if n == "ppf":
                    lo, hi = float(f(0.0, *rest, **ck)), float(f(1.0, *rest, **ck))
                    if v.is_const():
                        return Sym.of(float(fn(float(v.num.const()))))
                    if bool(v >= 1):
                        return INF if bool(v == 1) else NAN
                    if bool(v <= 0):
                        return Sym.of(lo) if bool(v == 0) else NAN
                    big = Fraction(10) ** 6
                    return ufs.monotone_uf(core.ENGINE, tag, v, fn, lo if math.isfinite(lo) else -big, big)
                if n in ("sf",):
                    return S1 - ufs.monotone_uf(core.ENGINE, f"{self._d.name}.cdf{pars}", v,
                                                lambda q: self._d.cdf(q, *rest, **ck), 0, 1)
                raise Unsupported(f"{self._d.name}.{n} of a symbolic value")

            if isinstance(x, Sym):
                return one(x)
            x = wrap(A._arr(lift(x)))
            out = np.empty(x.shape, dtype=object)
            for i in np.ndindex(*x.shape):
                out[i] = one(np.asarray(x)[i])
            return out.view(SymArray)

        return g


class _StatsProxy(types.ModuleType):
    def __init__(self, mod):
        super().__init__(mod.__name__)
        self.__dict__["_m"] = mod

    def __getattr__(self, n):
        v = getattr(self._m, n)
        r = replacement(v)
        return v if r is None else r


class _Tau:
    def __init__(self, s):
        self.statistic = s
        self.correlation = s
        self.pvalue = NAN

    def __iter__(self):
        return iter((self.statistic, self.pvalue))

    def __getitem__(self, i):
        return (self.statistic, self.pvalue)[i]


def set_(x):
    out = []
    for v in x:
        if not any(bool(v == u) for u in out):
            out.append(v)
    return out


def kendalltau(x, y, *a, variant="b", **k):
    x, y = list(wrap(A._arr(lift(x)))), list(wrap(A._arr(lift(y))))
    if any(v.sp for v in x + y):
        return _Tau(NAN)
    if k or a:
        raise Unsupported(f"kendalltau options {k} {a}")
    n = len(x)
    con = xt = yt = 0
    for i in range(n):
        for j in range(i):
            sx, sy = (x[i] - x[j]).sign(), (y[i] - y[j]).sign()
            con += sx * sy
            xt += sx == 0
            yt += sy == 0
    tot = n * (n - 1) // 2
    if xt == tot or yt == tot:
        return _Tau(NAN)
    if variant == "c":
        m = min(len(set_(x)), len(set_(y)))
        return _Tau(Sym.of(float(2 * (con / n ** 2) / ((m - 1) / m))))
    return _Tau(Sym.of(float(con / math.sqrt(tot - xt) / math.sqrt(tot - yt))))


def rankdata(a, method="average", *, axis=None, nan_policy="propagate"):
    a = wrap(A._arr(lift(a)))

    def f(xs):
        out = []
        for i, v in enumerate(xs):
            lt = sum(bool(u < v) for j, u in enumerate(xs) if j != i)
            eq = 1 + sum(bool(u == v) for j, u in enumerate(xs) if j != i)
            out.append(Sym.of({"average": lt + (eq + 1) / 2, "min": lt + 1, "max": lt + eq}[method]))
        return out

    if axis is None:
        return mk(f(list(np.asarray(a).reshape(-1))))
    return A._along(a, axis, f)


def sqrtm(a, *r, **k):
    M = A._mat(a)
    n = len(M)
    w, V = A.eigh_list(M)
    d = [x.sqrt() for x in w]
    V = mk(V)
    return A.matmul(A.matmul(V, np.diag(mk(d))), V.T)


def medcouple(y, axis=0):
    """exact medcouple, mirroring the kernel definition of statsmodels (O(n^2) kernel, median)"""
    y = wrap(A._arr(lift(y)))
    hook = MEDCOUPLE_HOOK

    def one(xs):
        if hook is not None:
            return hook(xs)
        s = A.ssorted(xs)
        n = len(s)
        if n % 2:
            mf = s[n // 2]
        else:
            mf = (s[n // 2 - 1] + s[n // 2]) / 2
        z = [v - mf for v in s]
        lower_ = [v for v in z if bool(v <= 0)]
        upper_ = [v for v in z if bool(v >= 0)]
        ties = sum(1 for v in lower_ if bool(v == 0))
        h = []
        nu = len(upper_)
        for i, u in enumerate(upper_):
            for j, l in enumerate(lower_):
                if bool(u == 0) and bool(l == 0):
                    li = j - (len(lower_) - ties)
                    # statsmodels: ones, with fliplr(-1 below/0) structure on the tie block
                    r = i + li
                    h.append(S0 if r == ties - 1 else (Sym.of(-1) if r < ties - 1 else S1))
                else:
                    h.append((u + l) / (u - l))
        return A._median(h)

    return A._axis_apply(y, axis, one)


MEDCOUPLE_HOOK = None


class OptRes:
    def __init__(self, **k):
        self.__dict__.update(k)

    def __getitem__(self, k):
        return self.__dict__[k]


MINIMIZE_HOOK = None


def minimize_scalar(fun, bracket=None, bounds=None, args=(), method=None, **k):
    if MINIMIZE_HOOK is not None:
        return MINIMIZE_HOOK(fun, bracket, bounds, args)
    from scipy.optimize import minimize_scalar as real  # objectives that do not depend on any unknown

    def f(t, *a):
        v = Sym.of(fun(t, *a))
        if v.sp:
            return v.to_float()
        g = A.ground_floats([[v]])
        if g is None:
            raise Unsupported("minimize_scalar of a symbolic objective")
        return g[0][0]

    if bounds is not None:
        bounds = tuple(np.float64(float(v)) for v in bounds)
    return real(f, bracket=bracket, bounds=bounds, args=args, method=method, **k)


# ---------------------------------------------------------------------------------------- sklearn / statsmodels
class LinearRegression:
    def __init__(self, *, fit_intercept=True, copy_X=True, n_jobs=None, positive=False):
        if positive:
            raise Unsupported("LinearRegression(positive=True)")
        self.fit_intercept = fit_intercept

    def fit(self, X, y, sample_weight=None):
        X, y = wrap(A._arr(lift(X))), wrap(A._arr(lift(y)))
        if X.ndim != 2:
            raise ValueError("Expected 2D array, got 1D array instead")
        if X.shape[0] == 0:
            raise ValueError("Found array with 0 sample(s)")
        if X.shape[0] != y.shape[0]:
            raise ValueError("Found input variables with inconsistent numbers of samples")
        for e in list(np.asarray(X).reshape(-1)) + list(np.asarray(y).reshape(-1)):
            if e.sp:
                raise ValueError("Input contains NaN or infinity")
        Y = y.reshape(X.shape[0], -1)
        n, p = X.shape
        if sample_weight is None:
            w = [S1] * n
        else:
            w = list(wrap(A._arr(lift(sample_weight))).reshape(-1))
            if any(e.sp for e in w):
                raise ValueError("Input sample_weight contains NaN.")
        sw = A.ssum(w)
        Xa, Ya = np.asarray(X), np.asarray(Y)
        q = Ya.shape[1]
        if self.fit_intercept:
            mx = [A.ssum([w[i] * Xa[i, j] for i in range(n)]) / sw for j in range(p)]
            my = [A.ssum([w[i] * Ya[i, j] for i in range(n)]) / sw for j in range(q)]
        else:
            mx, my = [S0] * p, [S0] * q
        Xc = [[Xa[i, j] - mx[j] for j in range(p)] for i in range(n)]
        Yc = [[Ya[i, j] - my[j] for j in range(q)] for i in range(n)]
        G = [[A.ssum([w[i] * Xc[i][a] * Xc[i][b] for i in range(n)]) for b in range(p)] for a in range(p)]
        R = [[A.ssum([w[i] * Xc[i][a] * Yc[i][b] for i in range(n)]) for b in range(q)] for a in range(p)]
        B = _min_norm_solve(G, R)
        coef = mk([[B[a][b] for a in range(p)] for b in range(q)])
        inter = [my[b] - A.ssum([mx[a] * B[a][b] for a in range(p)]) for b in range(q)]
        if y.ndim == 1:
            self.coef_ = coef[0]
            self.intercept_ = inter[0]
        else:
            self.coef_ = coef
            self.intercept_ = mk(inter)
        if not self.fit_intercept:
            self.intercept_ = 0.0
        self.n_features_in_ = p
        return self

    def predict(self, X):
        X = wrap(A._arr(lift(X)))
        if X.ndim != 2:
            raise ValueError("Expected 2D array, got 1D array instead")
        return A.matmul(X, wrap(A._arr(self.coef_)).T) + self.intercept_

    def get_params(self, deep=True):
        return {"fit_intercept": self.fit_intercept}


class PCA:
    """classical PCA of data whose centered values are numbers up to one positive factor"""

    def __init__(self, n_components=None, **k):
        if n_components is not None or k:
            raise Unsupported("PCA with options")
        self.n_components = n_components

    def fit(self, X, y=None):
        self.fit_transform(X)
        return self

    def fit_transform(self, X, y=None):
        from sklearn.decomposition import PCA as Real

        X = wrap(A._arr(lift(X)))
        if X.ndim != 2:
            raise ValueError("Expected 2D array")
        n, p = X.shape
        Xa = np.asarray(X)
        if any(e.sp for e in Xa.reshape(-1)):
            raise ValueError("Input contains NaN or infinity")
        mu = [A.ssum([Xa[i, j] for i in range(n)]) / n for j in range(p)]
        C = [[Xa[i, j] - mu[j] for j in range(p)] for i in range(n)]
        f, G = S1, A.ground_floats(C)
        if G is None:
            F = A.common_factor(C)
            if F is None:
                raise Unsupported("PCA of symbolic data")
            f, G = F
        r = Real()
        T = r.fit_transform(np.array(G))
        self.components_ = wrap(r.components_)
        self.mean_ = mk(mu) + wrap(r.mean_) * f
        self.explained_variance_ = wrap(r.explained_variance_) * (f * f)
        self.explained_variance_ratio_ = wrap(r.explained_variance_ratio_)
        self.singular_values_ = wrap(r.singular_values_) * f
        self.n_components_ = r.n_components_
        self.n_features_in_ = p
        return wrap(T) * f

    def transform(self, X):
        return A.matmul(wrap(A._arr(lift(X))) - self.mean_, self.components_.T)


def _min_norm_solve(G, R):
    """minimum-norm solution of G B = R for a PSD G (exact, by rank)."""
    p = len(G)
    if p == 0:
        return []
    if p == 1:
        if bool(G[0][0] == 0):
            return [[S0 for _ in R[0]]]
        return [[x / G[0][0] for x in R[0]]]
    d = A.det_list(G)
    if bool(d == 0):
        if p == 2:
            t = G[0][0] + G[1][1]
            if bool(t == 0):
                return [[S0 for _ in R[0]] for _ in range(2)]
            # rank one PSD: pinv(G) = G / trace^2
            return [[A.ssum([G[a][c] * R[c][b] for c in range(2)]) / (t * t) for b in range(len(R[0]))]
                    for a in range(2)]
        # G = M' G_SS M with S a maximal independent set of rows: pinv(G) = M' K G_SS^-1 K M, K = (M M')^-1
        S = []
        for j in range(p):
            T = S + [j]
            if bool(A.det_list([[G[a][b] for b in T] for a in T]) != 0):
                S = T
        if not S:
            return [[S0 for _ in R[0]] for _ in range(p)]
        mm = lambda P, Q: [[A.ssum([P[a][c] * Q[c][b] for c in range(len(Q))]) for b in range(len(Q[0]))] for a in range(len(P))]
        H = A.inv_list([[G[a][b] for b in S] for a in S])
        M = mm(H, [G[a] for a in S])
        K = A.inv_list(mm(M, [list(r) for r in zip(*M)]))
        return mm([list(r) for r in zip(*M)], mm(K, mm(H, mm(K, mm(M, R)))))
    Gi = A.inv_list(G)
    return [[A.ssum([Gi[a][c] * R[c][b] for c in range(p)]) for b in range(len(R[0]))] for a in range(p)]


class _WLSRes:
    def __init__(self, model, params):
        self.model = model
        self.params = params
        self.fittedvalues = A.matmul(model.exog, params)
        self.resid = model.endog - self.fittedvalues

    def predict(self, exog=None):
        if exog is None:
            return self.fittedvalues
        return A.matmul(wrap(A._arr(lift(exog))), self.params)


class WLS:
    def __init__(self, endog, exog, weights=1.0, **k):
        self.endog = wrap(A._arr(lift(endog)))
        if self.endog.ndim == 2 and self.endog.shape[1] == 1:
            self.endog = self.endog.reshape(-1)
        self.exog = wrap(A._arr(lift(exog)))
        if self.exog.ndim == 1:
            self.exog = self.exog.reshape(-1, 1)
        n = self.exog.shape[0]
        w = lift(weights)
        self.weights = wrap(np.broadcast_to(np.asarray(A._arr(w), dtype=object), (n,)).copy())
        bad = [e for e in np.asarray(self.exog).reshape(-1) if e.sp] + [e for e in self.endog if e.sp]
        if bad:
            raise _missing()("exog contains inf or nans")

    def fit(self, *a, **k):
        w = list(self.weights)
        if any(e.sp for e in w):
            raise np.linalg.LinAlgError("SVD did not converge")
        for e in w:
            if bool(e < 0):
                raise np.linalg.LinAlgError("SVD did not converge")
        X, y = np.asarray(self.exog), np.asarray(self.endog)
        n, p = X.shape
        G = [[A.ssum([w[i] * X[i, a] * X[i, b] for i in range(n)]) for b in range(p)] for a in range(p)]
        R = [[A.ssum([w[i] * X[i, a] * y[i] for i in range(n)])] for a in range(p)]
        B = _min_norm_solve(G, R)
        return _WLSRes(self, mk([b[0] for b in B]))


def OLS(endog, exog, **k):
    return WLS(endog, exog, 1.0)


def _missing():
    from statsmodels.tools.sm_exceptions import MissingDataError

    return MissingDataError


def add_constant(data, prepend=True, has_constant="skip"):
    x = wrap(A._arr(lift(data)))
    if x.ndim == 1:
        x = x.reshape(-1, 1)
    elif x.ndim > 2:
        raise ValueError("Only implemented for 2-dimensional arrays")
    n, p = x.shape
    if has_constant != "add":
        for j in range(p):
            col = list(np.asarray(x)[:, j])
            if all(c.sp is None for c in col) and all(bool(c == col[0]) for c in col[1:]) and bool(col[0] != 0):
                if has_constant == "raise":
                    raise ValueError("constant column")
                return x
    one = A.sfull((n, 1), S1)
    return np.hstack([one, x] if prepend else [x, one])


def _validate_data(self, X="no_validation", y="no_validation", reset=True, **kw):
    if isinstance(X, pd.DataFrame) and has_sym(X.values):
        X = X.values
    if not isinstance(X, SymArray) and not has_sym(X):
        return _ORIG["validate_data"](self, X, y, reset=reset, **kw)
    X = lift(X)
    if kw.get("ensure_2d", True) and X.ndim != 2:
        raise ValueError("Expected 2D array, got 1D array instead")
    faf = kw.get("force_all_finite", kw.get("ensure_all_finite", True))
    for e in np.asarray(X).reshape(-1):
        if e.sp == "nan" and faf is True:
            raise ValueError("Input X contains NaN.")
        if e.sp in ("inf", "-inf") and faf:
            raise ValueError("Input X contains infinity or a value too large for dtype('float64').")
    if reset:
        self.n_features_in_ = X.shape[1]
    return X


def _set_covariance(self, covariance):
    if not isinstance(covariance, SymArray):
        if not has_sym(covariance):
            return _ORIG["set_covariance"](self, covariance)
        covariance = lift(covariance)
    if covariance.ndim != 2:
        raise ValueError("Expected 2D array")
    for e in np.asarray(covariance).reshape(-1):
        if e.sp:
            raise ValueError("Input contains NaN.")
    self.covariance_ = covariance
    self.precision_ = A.spinv(covariance) if self.store_precision else None


def _pairwise(X, Y=None, metric="euclidean", **kw):
    """Mahalanobis distances to one point, as EmpiricalCovariance.mahalanobis asks for"""
    if not (has_sym(X) or has_sym(Y) or has_sym(kw.get("VI", 0))):
        return _ORIG["pairwise"](X, Y, metric=metric, **kw)
    if metric != "mahalanobis" or len(Y) != 1:
        raise Unsupported(f"pairwise_distances {metric}")
    D = wrap(A._arr(lift(X))) - wrap(A._arr(lift(Y)))
    q = (A.matmul(D, lift(kw["VI"])) * D).sum(axis=1)
    return np.sqrt(q).reshape(-1, 1)


_ORIG = {}
_REPL: dict = {}


def _build():
    import scipy.linalg
    import scipy.optimize
    import scipy.stats
    import sklearn.base
    import sklearn.covariance
    import sklearn.decomposition
    import sklearn.linear_model
    import statsmodels.api
    import statsmodels.stats.stattools

    r = _REPL

    def add(orig, new):
        r[id(orig)] = (orig, new)

    add(np, np_proxy)
    add(np.linalg, linalg_proxy)
    add(pd, PDProxy("pandas"))
    add(pd.to_numeric, frames.to_numeric)
    add(math, math_proxy)
    add(scipy.stats.median_abs_deviation, median_abs_deviation)
    for d in ("chi2", "gamma", "norm", "f", "beta", "t"):
        add(getattr(scipy.stats, d), _DistProxy(getattr(scipy.stats, d)))
    add(scipy.stats.kendalltau, kendalltau)
    add(scipy.stats.rankdata, rankdata)
    add(scipy.stats, _StatsProxy(scipy.stats))
    add(scipy.linalg.pinvh, A.spinv)
    add(scipy.linalg.sqrtm, sqrtm)
    for n in ("inv", "det", "eigh", "solve", "norm", "pinv", "svd", "cholesky"):
        add(getattr(scipy.linalg, n), getattr(linalg_proxy, n))
    add(scipy.optimize.minimize_scalar, minimize_scalar)
    add(sklearn.linear_model.LinearRegression, LinearRegression)
    add(sklearn.decomposition.PCA, PCA)
    add(statsmodels.api.WLS, WLS)
    add(statsmodels.api.OLS, OLS)
    add(statsmodels.api.add_constant, add_constant)
    add(statsmodels.stats.stattools.medcouple, medcouple)
    # functions imported directly from numpy
    for n in ("median", "mean", "std", "sqrt", "array", "zeros", "ones"):
        add(getattr(np, n), getattr(np_proxy, n))
    _ORIG["validate_data"] = sklearn.base.BaseEstimator._validate_data
    sklearn.base.BaseEstimator._validate_data = _validate_data
    _ORIG["set_covariance"] = sklearn.covariance.EmpiricalCovariance._set_covariance
    sklearn.covariance.EmpiricalCovariance._set_covariance = _set_covariance
    m = sys.modules[sklearn.covariance.EmpiricalCovariance.__module__]
    _ORIG["pairwise"], _ORIG["linalg"] = m.pairwise_distances, m.linalg
    m.pairwise_distances = _pairwise
    m.linalg = types.SimpleNamespace(**{k: getattr(m.linalg, k) for k in dir(m.linalg) if not k.startswith("__")})
    m.linalg.pinvh = lambda a, *_, **k: A.spinv(a)


def replacement(v):
    try:
        e = _REPL.get(id(v))
    except TypeError:
        return None
    return e[1] if e is not None and e[0] is v else None


def _p_pow(a, b, *m):
    return a ** b if not m else pow(a, b, *m)


PATCHED_MODULES = []


def install(extra=None):
    """patch every loaded robpy module in place (this process only)."""
    if not _REPL:
        _build()
    for name, mod in list(sys.modules.items()):
        if not (name == "robpy" or name.startswith("robpy.")) or mod is None:
            continue
        d = mod.__dict__
        for k, v in list(d.items()):
            if k.startswith("__"):
                continue
            r = replacement(v)
            if r is not None:
                d[k] = r
            elif isinstance(v, types.FunctionType) and v.__module__ == name:
                _fix_defaults(v)
            elif isinstance(v, type) and v.__module__ == name:
                for m in vars(v).values():
                    f = m.__func__ if isinstance(m, (staticmethod, classmethod)) else m
                    if isinstance(f, property):
                        continue
                    if isinstance(f, types.FunctionType):
                        _fix_defaults(f)
        d["int"] = p_int
        d["float"] = p_float
        d["isinstance"] = p_isinstance
        PATCHED_MODULES.append(name)


def _fix_defaults(f):
    if f.__defaults__:
        f.__defaults__ = tuple(replacement(v) if replacement(v) is not None else v for v in f.__defaults__)
    if f.__kwdefaults__:
        f.__kwdefaults__ = {k: replacement(v) if replacement(v) is not None else v
                            for k, v in f.__kwdefaults__.items()}
