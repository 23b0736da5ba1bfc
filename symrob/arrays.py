"""SymArray: an object-dtype ndarray of Syms that numpy functions dispatch to."""
from __future__ import annotations

import itertools
import math
import operator
from fractions import Fraction

import numpy as np

from . import core
from .core import ALL, INF, NAN, NEG, POS, S0, S1, ZERO, Sym, Unsupported


def _sym_elem(x):
    return x if isinstance(x, Sym) else Sym.of(x)


def wrap(a) -> "SymArray":
    """any numeric array -> SymArray (elements all Sym)"""
    if isinstance(a, SymArray):
        return a
    a = np.asarray(a) if not isinstance(a, np.ndarray) else a
    out = np.empty(a.shape, dtype=object)
    fo = out.reshape(-1)
    for i, x in enumerate(a.reshape(-1).tolist() if a.dtype != object else a.reshape(-1)):
        fo[i] = _sym_elem(x)
    return out.reshape(a.shape).view(SymArray)


def mk(seq) -> "SymArray":
    """nested sequence of scalars -> SymArray"""
    return wrap(_obj(seq))


def _obj(seq):
    def shape(s):
        if isinstance(s, np.ndarray):
            return s.shape
        if isinstance(s, (list, tuple)):
            if not s:
                return (0,)
            return (len(s),) + shape(s[0])
        return ()

    sh = shape(seq)
    out = np.empty(sh, dtype=object)

    def fill(o, s):
        if isinstance(s, np.ndarray):
            o[...] = s
            return
        if o.ndim == 1:
            for i, x in enumerate(s):
                o[i] = x if not (isinstance(x, np.ndarray) and x.ndim == 0) else x.item()
        else:
            for i, x in enumerate(s):
                fill(o[i], x)

    if sh == ():
        out[()] = seq
    else:
        fill(out, seq)
    return out


def has_sym(x, depth=0) -> bool:
    if isinstance(x, (Sym, SymArray)):
        return True
    if isinstance(x, (list, tuple)) and depth < 4:
        return any(has_sym(y, depth + 1) for y in x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(isinstance(y, Sym) for y in x.reshape(-1))
    return False


def unwrap0(x):
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return x[()]
    return x


def concrete(x):
    """SymArray with only constant entries -> float64 ndarray; else None"""
    if isinstance(x, SymArray):
        flat = np.asarray(x, dtype=object).reshape(-1)
        if all(e.is_const() for e in flat):
            return np.array([e.to_float() for e in flat], dtype=float).reshape(x.shape)
        return None
    if isinstance(x, Sym):
        return np.float64(x.to_float()) if x.is_const() else None
    return x


UNARY = {}
HANDLED = {}


def implements(*funcs):
    def deco(f):
        for fn in funcs:
            HANDLED[fn] = f
        return f

    return deco


class SymArray(np.ndarray):
    __array_priority__ = 2000.0

    def __array_finalize__(self, obj):
        pass

    # -- ufuncs
    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        kw.pop("casting", None)
        where = kw.pop("where", True)
        kw.pop("dtype", None)
        name = ufunc.__name__
        if where is not True:
            res = _ufunc_where(ufunc, method, inputs, out, where, kw)
            return res
        if method == "__call__":
            res = _call_ufunc(ufunc, name, inputs)
        elif method == "reduce":
            res = _reduce(name, inputs[0], **kw)
        elif method == "outer":
            a, b = inputs
            a, b = _arr(a), _arr(b)
            res = _call_ufunc(ufunc, name, (a.reshape(a.shape + (1,) * b.ndim), b))
        elif method == "accumulate":
            a = _arr(inputs[0])
            res = _accumulate(name, a, kw.get("axis", 0))
        elif method == "at":
            a, idx = inputs[0], inputs[1]
            b = inputs[2]
            ia = np.arange(a.size).reshape(a.shape)[idx].reshape(-1)
            bb = np.broadcast_to(_arr(b), np.arange(a.size).reshape(a.shape)[idx].shape).reshape(-1)
            fl = a.reshape(-1)
            for i, v in zip(ia, bb):
                fl[i] = _call_ufunc(ufunc, name, (fl[i], v))
            return None
        else:
            raise Unsupported(f"ufunc method {name}.{method}")
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if o is not None:
                if isinstance(res, np.ndarray) or isinstance(o, np.ndarray):
                    np.ndarray.__setitem__(o, Ellipsis, np.asarray(res) if not isinstance(res, Sym) else res)
                return o
        return res

    def __array_function__(self, func, types, args, kwargs):
        h = HANDLED.get(func)
        if h is not None:
            return h(*args, **kwargs)
        if func in PASS:
            return _fix(func._implementation(*args, **kwargs))
        # all symbolic arguments constant?  then the real function decides
        ca, ok = _concretize(args)
        ck, ok2 = _concretize(kwargs)
        if ok and ok2:
            return _fix(func(*ca, **ck))
        try:
            return _fix(func._implementation(*args, **kwargs))
        except TypeError as e:
            raise Unsupported(f"{getattr(func, '__name__', func)}: {e}")

    # -- conversions
    def astype(self, dtype, *a, **k):
        if isinstance(dtype, str) and dtype in ("object", "O") or dtype is object:
            return self.copy()
        dt = np.dtype(dtype) if not isinstance(dtype, type) or dtype not in _KIND else np.dtype(_KIND[dtype])
        if dt.kind == "f" and dt.itemsize < 8:
            return _single(self, dt)
        if dt.kind == "f":
            if len(a) > 3 and not a[3] or not k.get("copy", True):
                return self
            return self.copy()
        flat = np.asarray(self, dtype=object).reshape(-1)
        if dt.kind in "iu":
            vals = []
            for e in flat:
                if e.sp:
                    raise Unsupported("int of non-finite")
                t = e.trunc()
                vals.append(int(t))
            return np.array(vals, dtype=dt).reshape(self.shape)
        if dt.kind == "b":
            return np.array([bool(e != 0) if not e.sp else True for e in flat], dtype=bool).reshape(self.shape)
        if dt.kind == "O":
            return self.copy()
        raise Unsupported(f"astype {dtype}")

    def __float__(self):
        return float(self.item())

    def item(self, *a):
        return np.asarray(self, dtype=object).item(*a)

    def tolist(self):
        return np.asarray(self, dtype=object).tolist()

    def __getitem__(self, k):
        k = _fixidx(k)
        r = np.ndarray.__getitem__(self, k)
        return r

    def __setitem__(self, k, v):
        k = _fixidx(k)
        if isinstance(v, (float, int, np.floating, np.integer, bool, np.bool_)):
            v = Sym.of(v)
        elif isinstance(v, np.ndarray) and not isinstance(v, SymArray):
            v = wrap(v)
        elif isinstance(v, (list, tuple)):
            v = mk(v)
        if isinstance(v, SymArray) and (v.ndim == 0 or v.size == 1 and isinstance(k, tuple) and len(k) == self.ndim
                                        and all(isinstance(q, (int, np.integer)) for q in k)):
            v = v.reshape(-1)[0]
        np.ndarray.__setitem__(self, k, v)

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous.")
        return bool(self.reshape(-1)[0])

    def __contains__(self, x):
        return any(bool(e == x) for e in self.reshape(-1))

    # -- methods
    def _m(name):  # noqa
        def f(self, *a, **k):
            return getattr(np, name)(self, *a, **k)

        f.__name__ = name
        return f

    for _n in ("sum", "mean", "std", "var", "max", "min", "prod", "all", "any", "argsort", "argmax", "argmin",
               "cumsum", "dot", "round", "trace", "clip", "searchsorted", "argpartition", "ptp"):
        locals()[_n] = _m(_n)
    del _n, _m

    def sort(self, axis=-1, **k):
        r = np.sort(self, axis=axis)
        np.ndarray.__setitem__(self, Ellipsis, r)

    def partition(self, kth, axis=-1, **k):
        self.sort(axis)

    def nonzero(self):
        return self.astype(bool).nonzero()

    def flatten(self, *a):
        return np.ndarray.flatten(self, *a)

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def __imatmul__(self, o):
        return matmul(self, o)

    def __deepcopy__(self, memo):
        return self.copy()

    def __reduce__(self):
        raise Unsupported("pickling a symbolic array")


_KIND = {float: "f8", int: "i8", bool: "?"}


def _fixidx(k):
    def one(x):
        if isinstance(x, Sym):
            return x.__index__()
        if isinstance(x, SymArray):
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
        return x

    if isinstance(k, tuple):
        return tuple(one(x) for x in k)
    return one(k)


def _fix(r):
    """post-process results of numpy's own implementations"""
    if isinstance(r, SymArray):
        return r
    if isinstance(r, np.ndarray):
        if r.dtype == object:
            flat = r.reshape(-1)
            if all(isinstance(e, (bool, np.bool_)) for e in flat) and r.size:
                return r.astype(bool)
            return wrap(r)
        return r
    if isinstance(r, tuple) and type(r) is tuple:
        return tuple(_fix(x) for x in r)
    if isinstance(r, list):
        return [_fix(x) for x in r]
    return r


def _concretize(args):
    if isinstance(args, dict):
        out, ok = {}, True
        for k, v in args.items():
            c, o = _concretize(v)
            out[k] = c
            ok = ok and o
        return out, ok
    if isinstance(args, (list, tuple)):
        out, ok = [], True
        for v in args:
            c, o = _concretize(v)
            out.append(c)
            ok = ok and o
        return (type(args)(out) if type(args) in (list, tuple) else out), ok
    if isinstance(args, (SymArray, Sym)):
        c = concrete(args)
        return c, c is not None
    return args, True


def _arr(x):
    if isinstance(x, np.ndarray):
        return x
    if isinstance(x, Sym):
        a = np.empty((), dtype=object)
        a[()] = x
        return a.view(SymArray)
    if isinstance(x, (list, tuple)):
        return mk(x) if has_sym(x) else np.asarray(x)
    return np.asarray(x)


def _np_sign(x):
    return NAN if x.sp == "nan" else Sym.of(x.sign())


def _maximum(a, b):
    if a.sp == "nan" or b.sp == "nan":
        return NAN
    return a if a >= b else b


def _minimum(a, b):
    if a.sp == "nan" or b.sp == "nan":
        return NAN
    return a if a <= b else b


def _fmax(a, b):
    return b if a.sp == "nan" else a if b.sp == "nan" else _maximum(a, b)


def _fmin(a, b):
    return b if a.sp == "nan" else a if b.sp == "nan" else _minimum(a, b)


_BIN = {
    "add": operator.add, "subtract": operator.sub, "multiply": operator.mul, "divide": operator.truediv,
    "true_divide": operator.truediv, "power": operator.pow, "float_power": operator.pow,
    "floor_divide": operator.floordiv, "remainder": operator.mod,
    "maximum": _maximum, "minimum": _minimum, "fmax": _fmax, "fmin": _fmin,
    "hypot": lambda a, b: (a * a + b * b).sqrt(),
    "copysign": lambda a, b: abs(a) if b.sign_ge0() else -abs(a),
}
_CMP = {
    "less": operator.lt, "less_equal": operator.le, "greater": operator.gt, "greater_equal": operator.ge,
    "equal": operator.eq, "not_equal": operator.ne,
    "logical_and": lambda a, b: bool(a != 0) and bool(b != 0),
    "logical_or": lambda a, b: bool(a != 0) or bool(b != 0),
    "logical_xor": lambda a, b: bool(a != 0) ^ bool(b != 0),
}
_UN = {
    "negative": operator.neg, "positive": operator.pos, "absolute": abs, "fabs": abs,
    "sqrt": lambda x: x.sqrt(), "square": lambda x: x * x, "exp": lambda x: x.exp(), "log": lambda x: x.log(),
    "log1p": lambda x: x.log1p(), "expm1": lambda x: x.expm1(), "log2": lambda x: x.log2(),
    "log10": lambda x: x.log10(), "tanh": lambda x: x.tanh(), "arctan": lambda x: x.arctan(),
    "reciprocal": lambda x: S1 / x, "sign": _np_sign, "floor": lambda x: x.floor(), "ceil": lambda x: x.ceil(),
    "rint": lambda x: x.rint(), "trunc": lambda x: x.trunc(), "conjugate": lambda x: x,
}
_UNB = {
    "isnan": lambda x: x.sp == "nan", "isfinite": lambda x: x.sp is None, "isinf": lambda x: x.isinf(),
    "logical_not": lambda x: not bool(x != 0), "signbit": lambda x: not x.sign_ge0(),
}


def _call_ufunc(ufunc, name, inputs):
    if name == "matmul":
        return matmul(*inputs)
    arrs = []
    for x in inputs:
        a = _arr(x)
        if a.dtype != object:
            a = wrap(a) if a.dtype.kind in "fiub" else a
        elif not isinstance(a, SymArray):
            a = wrap(a)
        arrs.append(a)
    scalar = all(a.ndim == 0 for a in arrs)
    if len(arrs) == 1:
        f = _UN.get(name)
        isb = False
        if f is None:
            f = _UNB.get(name)
            isb = True
        if f is None:
            cc = [concrete(a) for a in arrs]
            if all(c is not None for c in cc):
                return ufunc(*cc)
            raise Unsupported(f"ufunc {name}")
        a = np.asarray(arrs[0])
        out = np.empty(a.shape, dtype=bool if isb else object)
        fo, fa = out.reshape(-1), a.reshape(-1)
        for i in range(fa.size):
            fo[i] = f(fa[i])
        out = fo.reshape(a.shape)
    else:
        f = _BIN.get(name)
        isb = False
        if f is None:
            f = _CMP.get(name)
            isb = True
        if f is None:
            cc = [concrete(a) for a in arrs]
            if all(c is not None for c in cc):
                return ufunc(*cc)
            raise Unsupported(f"ufunc {name}")
        a, b = np.broadcast_arrays(np.asarray(arrs[0]), np.asarray(arrs[1]))
        out = np.empty(a.shape, dtype=bool if isb else object)
        fo = out.reshape(-1)
        for i, (x, y) in enumerate(zip(a.reshape(-1), b.reshape(-1))):
            fo[i] = f(x, y)
        out = fo.reshape(a.shape)
    if scalar:
        return out[()]
    return out if isb else out.view(SymArray)


def _ufunc_where(ufunc, method, inputs, out, where, kw):
    name = ufunc.__name__
    where = np.asarray(where)
    if method == "reduce":
        return _reduce(name, inputs[0], where=where, **kw)
    if method != "__call__":
        raise Unsupported("ufunc where")
    arrs = [wrap(_arr(x)) for x in inputs]
    shp = np.broadcast_shapes(*[a.shape for a in arrs], where.shape)
    arrs = [np.broadcast_to(np.asarray(a), shp) for a in arrs]
    w = np.broadcast_to(where, shp)
    o = out[0] if isinstance(out, tuple) else out
    if o is None:
        o = np.empty(shp, dtype=object).view(SymArray)
        o[...] = S0
    for i in np.ndindex(*shp):
        if w[i]:
            o[i] = _call_ufunc(ufunc, name, tuple(a[i] for a in arrs))
    return o


def _axis_apply(a, axis, f, keepdims=False, boolean=False):
    """apply f(1-d list) along axis (None = flatten, or tuple)."""
    a = np.asarray(a)
    if axis is None:
        r = f(list(a.reshape(-1)))
        if keepdims:
            out = np.empty((1,) * a.ndim, dtype=object)
            out[(0,) * a.ndim] = r
            return out.view(SymArray) if not boolean else out.astype(bool)
        return r
    if isinstance(axis, tuple):
        axs = sorted(x % a.ndim for x in axis)
        rest = [i for i in range(a.ndim) if i not in axs]
        b = np.transpose(a, rest + axs).reshape([a.shape[i] for i in rest] + [-1])
        r = _axis_apply(b, -1, f, False, boolean)
        if keepdims:
            r = np.reshape(r, [1 if i in axs else a.shape[i] for i in range(a.ndim)])
        return r
    axis = int(axis) % a.ndim
    b = np.moveaxis(a, axis, -1)
    out = np.empty(b.shape[:-1], dtype=bool if boolean else object)
    for idx in np.ndindex(*b.shape[:-1]):
        out[idx] = f(list(b[idx]))
    if b.ndim == 1:
        r = out[()]
        if keepdims:
            o2 = np.empty((1,), dtype=object)
            o2[0] = r
            return o2.view(SymArray)
        return r
    if keepdims:
        out = np.expand_dims(out, axis)
    return out if boolean else out.view(SymArray)


def ssum(xs):
    r = S0
    for x in xs:
        r = r + x
    return r


def sprod(xs):
    r = S1
    for x in xs:
        r = r * x
    return r


def smax(xs):
    if not xs:
        raise ValueError("zero-size array to reduction operation maximum which has no identity")
    if any(x.sp == "nan" for x in xs):
        return NAN
    m = xs[0]
    for x in xs[1:]:
        if x > m:
            m = x
    return m


def smin(xs):
    if not xs:
        raise ValueError("zero-size array to reduction operation minimum which has no identity")
    if any(x.sp == "nan" for x in xs):
        return NAN
    m = xs[0]
    for x in xs[1:]:
        if x < m:
            m = x
    return m


def _reduce(name, a, axis=0, keepdims=False, initial=None, dtype=None, where=True, **kw):
    f = {"add": ssum, "multiply": sprod, "maximum": smax, "minimum": smin,
         "fmax": lambda xs: smax([x for x in xs if x.sp != "nan"]),
         "fmin": lambda xs: smin([x for x in xs if x.sp != "nan"])}.get(name)
    if f is not None:
        return _redu(a, axis, f, keepdims, initial=initial, where=where, **kw)
    fb = {"logical_and": lambda xs: all(bool(x != 0) for x in xs),
          "logical_or": lambda xs: any(bool(x != 0) for x in xs)}.get(name)
    if fb is not None:
        return _redu(a, axis, fb, keepdims, where=where, boolean=True, **kw)
    raise Unsupported(f"reduce {name}")


def _accumulate(name, a, axis):
    f = {"add": operator.add, "multiply": operator.mul, "maximum": _maximum, "minimum": _minimum}.get(name)
    if f is None:
        raise Unsupported(f"accumulate {name}")
    a = wrap(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    b = np.moveaxis(np.asarray(a), axis, -1)
    out = np.empty(b.shape, dtype=object)
    for idx in np.ndindex(*b.shape[:-1]):
        acc = None
        for j, x in enumerate(b[idx]):
            acc = x if acc is None else f(acc, x)
            out[idx + (j,)] = acc
    return np.moveaxis(out, -1, axis).view(SymArray)


def matmul(a, b):
    a, b = _arr(a), _arr(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    if a.ndim > 2 or b.ndim > 2:
        raise Unsupported("matmul of stacked matrices")
    a, b = wrap(a), wrap(b)
    A = np.asarray(a).reshape(1, -1) if a.ndim == 1 else np.asarray(a)
    B = np.asarray(b).reshape(-1, 1) if b.ndim == 1 else np.asarray(b)
    if A.shape[1] != B.shape[0]:
        raise ValueError(f"matmul: Input operand 1 has a mismatch in its core dimension 0 {a.shape} {b.shape}")
    out = np.empty((A.shape[0], B.shape[1]), dtype=object)
    for i in range(A.shape[0]):
        for j in range(B.shape[1]):
            r = S0
            for k in range(A.shape[1]):
                x, y = A[i, k], B[k, j]
                if not x.sp and not x.num.t and not y.sp:
                    continue
                if not y.sp and not y.num.t and not x.sp:
                    continue
                r = r + x * y
            out[i, j] = r
    if a.ndim == 1 and b.ndim == 1:
        return out[0, 0]
    if a.ndim == 1:
        out = out[0]
    elif b.ndim == 1:
        out = out[:, 0]
    return out.view(SymArray)


_NV = type(np._NoValue)
_SKIP = object()


def nokw(kw, allowed=()):
    """options that are not modelled must not be silently ignored"""
    for k, v in kw.items():
        if v is None or isinstance(v, _NV) or k in allowed:
            continue
        raise Unsupported(f"option {k}={v!r}")


def _redu(a, axis, f, keepdims=False, out=None, dtype=None, where=True, initial=None, boolean=False, **kw):
    """a numpy reduction with its general options"""
    nokw(kw)
    a = wrap(_arr(a))
    if isinstance(where, _NV):
        where = True
    g = f
    if initial is not None and not isinstance(initial, _NV):
        g = lambda xs: f([_sym_elem(initial)] + xs)  # noqa
    h = g
    if where is not True:
        w = wrap(_arr(where)).astype(bool) if np.asarray(where).dtype == object else np.asarray(where)
        sh = np.broadcast_shapes(a.shape, w.shape)
        w, a = np.broadcast_to(w, sh), np.broadcast_to(np.asarray(a), sh).copy()
        for i in np.ndindex(*sh):
            if not w[i]:
                a[i] = _SKIP
        h = lambda xs: g([x for x in xs if x is not _SKIP])  # noqa
    r = _axis_apply(a, axis, h, keepdims is True, boolean)
    if out is not None:
        out = out[0] if isinstance(out, tuple) else out
        out[...] = r
        return out
    return r


# ----------------------------------------------------------------------------------------------
# __array_function__ handlers
# ----------------------------------------------------------------------------------------------
def _red(f):
    def h(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return _redu(a, axis, f, keepdims, out, **kw)

    return h


def _red2(f):  # no dtype argument
    def h(a, axis=None, out=None, keepdims=False, **kw):
        return _redu(a, axis, f, keepdims, out, **kw)

    return h


HANDLED[np.sum] = _red(ssum)
HANDLED[np.prod] = _red(sprod)


def _mean(xs):
    if not xs:
        return NAN
    return ssum(xs) / Sym.of(len(xs))


HANDLED[np.mean] = _red(_mean)


@implements(np.max, np.amax)
def _npmax(a, axis=None, out=None, keepdims=False, **kw):
    return _redu(a, axis, smax, keepdims, out, **kw)


@implements(np.min, np.amin)
def _npmin(a, axis=None, out=None, keepdims=False, **kw):
    return _redu(a, axis, smin, keepdims, out, **kw)


@implements(np.ptp)
def _ptp(a, axis=None, out=None, keepdims=False, **kw):
    return _redu(a, axis, lambda xs: smax(xs) - smin(xs), keepdims, out, **kw)


def _varf(ddof):
    def f(xs):
        n = len(xs)
        if n - ddof <= 0:
            return NAN
        m = _mean(xs)
        return ssum([(x - m) * (x - m) for x in xs]) / Sym.of(n - ddof)

    return f


@implements(np.var)
def _var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    return _redu(a, axis, _varf(ddof), keepdims, out, **kw)


@implements(np.std)
def _std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    f = _varf(ddof)
    return _redu(a, axis, lambda xs: f(xs).sqrt(), keepdims, out, **kw)


@implements(np.all)
def _all(a, axis=None, out=None, keepdims=False, **kw):
    return _redu(a, axis, lambda xs: all(bool(x != 0) for x in xs), keepdims, out, boolean=True, **kw)


@implements(np.any)
def _any(a, axis=None, out=None, keepdims=False, **kw):
    return _redu(a, axis, lambda xs: any(bool(x != 0) for x in xs), keepdims, out, boolean=True, **kw)


def _nanskip(f):
    def g(xs):
        ys = [x for x in xs if x.sp != "nan"]
        return f(ys)

    return g


def _nan_or(f, empty=NAN):
    def g(xs):
        ys = [x for x in xs if x.sp != "nan"]
        return f(ys) if ys else empty

    return g


HANDLED[np.nansum] = _red(_nanskip(ssum))
HANDLED[np.nanmean] = _red(_nan_or(_mean))
HANDLED[np.nanmax] = _red2(_nan_or(smax))
HANDLED[np.nanmin] = _red2(_nan_or(smin))


@implements(np.nanvar)
def _nanvar(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    return _redu(a, axis, _nan_or(_varf(ddof)), keepdims, out, **kw)


@implements(np.nanstd)
def _nanstd(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    f = _varf(ddof)
    return _redu(a, axis, _nan_or(lambda xs: f(xs).sqrt()), keepdims, out, **kw)


# -- order -------------------------------------------------------------------------------------
def order(xs, stable=True):
    """indices sorting xs (nan last), by merge sort (forks on comparisons)."""
    nan = [i for i, x in enumerate(xs) if x.sp == "nan"]
    idx = [i for i, x in enumerate(xs) if x.sp != "nan"]

    def ms(v):
        if len(v) <= 1:
            return v
        h = len(v) // 2
        a, b = ms(v[:h]), ms(v[h:])
        out = []
        i = j = 0
        while i < len(a) and j < len(b):
            if xs[a[i]] is xs[b[j]] or xs[a[i]] <= xs[b[j]]:
                out.append(a[i])
                i += 1
            else:
                out.append(b[j])
                j += 1
        return out + a[i:] + b[j:]

    return ms(idx) + nan


def ssorted(xs):
    return [xs[i] for i in order(xs)]


def _median(xs):
    if not xs or any(x.sp == "nan" for x in xs):
        return NAN
    n = len(xs)
    if n == 1:
        return xs[0]
    s = ssorted(xs)
    if n % 2:
        return s[n // 2]
    return (s[n // 2 - 1] + s[n // 2]) / 2


@implements(np.median)
def _npmedian(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    return _redu(a, axis, _median, keepdims, out)


@implements(np.nanmedian)
def _npnanmedian(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    return _redu(a, axis, _nan_or(_median), keepdims, out)


def _quantile1(xs, q, method="linear"):
    if not xs or any(x.sp == "nan" for x in xs):
        return NAN
    n = len(xs)
    s = ssorted(xs)
    if method == "linear":
        pos = q * (n - 1)
    elif method in ("lower", "higher", "nearest", "midpoint"):
        pos = q * (n - 1)
        if method == "lower":
            return s[math.floor(pos)]
        if method == "higher":
            return s[math.ceil(pos)]
        if method == "midpoint":
            return (s[math.floor(pos)] + s[math.ceil(pos)]) / 2
        return s[int(np.round(float(pos)))]
    elif method == "hazen":
        pos = q * n - Fraction(1, 2)
    elif method == "weibull":
        pos = q * (n + 1) - 1
    elif method == "median_unbiased":
        pos = q * (n + Fraction(1, 3)) - Fraction(2, 3)
    else:
        raise Unsupported(f"quantile method {method}")
    pos = min(max(pos, Fraction(0)), Fraction(n - 1))
    lo = math.floor(pos)
    g = pos - lo
    if lo >= n - 1 or g == 0:
        return s[lo]
    return s[lo] + (s[lo + 1] - s[lo]) * Sym.of(g)


def _quantile(a, q, axis=None, out=None, overwrite_input=False, method="linear", keepdims=False, **kw):
    nokw(dict(kw, out=out))
    a = wrap(_arr(a))
    qs = np.asarray(concrete(q) if isinstance(q, (Sym, SymArray)) else q, dtype=float)
    if qs.ndim == 0:
        return _axis_apply(a, axis, lambda xs: _quantile1(xs, core.to_fraction(float(qs)), method), keepdims)
    return np.stack([_arr(_quantile(a, float(x), axis=axis, method=method, keepdims=keepdims)) for x in qs])


HANDLED[np.quantile] = _quantile


@implements(np.percentile)
def _percentile(a, q, axis=None, out=None, overwrite_input=False, method="linear", keepdims=False, **kw):
    nokw(dict(kw, out=out))
    qq = core.to_fraction(q) / 100 if np.ndim(q) == 0 else np.asarray(q) / 100
    if np.ndim(q) == 0:
        return _axis_apply(wrap(_arr(a)), axis, lambda xs: _quantile1(xs, qq, method), keepdims)
    return _quantile(a, qq, axis=axis, method=method, keepdims=keepdims)


@implements(np.nanpercentile)
def _nanpercentile(a, q, axis=None, out=None, overwrite_input=False, method="linear", keepdims=False, **kw):
    nokw(dict(kw, out=out))
    qq = core.to_fraction(q) / 100
    return _axis_apply(wrap(_arr(a)), axis, _nan_or(lambda xs: _quantile1(xs, qq, method)), keepdims is True)


@implements(np.nanquantile)
def _nanquantile(a, q, axis=None, out=None, overwrite_input=False, method="linear", keepdims=False, **kw):
    nokw(dict(kw, out=out))
    qq = core.to_fraction(q)
    return _axis_apply(wrap(_arr(a)), axis, _nan_or(lambda xs: _quantile1(xs, qq, method)), keepdims is True)


def _along(a, axis, f, dtype=object):
    a = np.asarray(wrap(_arr(a)))
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    b = np.moveaxis(a, axis, -1)
    out = np.empty(b.shape, dtype=dtype)
    for idx in np.ndindex(*b.shape[:-1]):
        r = f(list(b[idx]))
        for j, x in enumerate(r):
            out[idx + (j,)] = x
    out = np.moveaxis(out, -1, axis)
    return out.view(SymArray) if dtype is object else out


@implements(np.sort)
def _sort(a, axis=-1, kind=None, order=None, **kw):
    nokw(dict(kw, order=order), ("stable",))
    return _along(a, axis, ssorted)


@implements(np.partition)
def _partition(a, kth, axis=-1, kind=None, order=None):
    return _along(a, axis, ssorted)


def _order(xs):
    idx = order(xs)
    if not core.W.order_tie:
        for i, j in zip(idx, idx[1:]):
            x, y = xs[i], xs[j]
            if x is not y and x.sp is None and y.sp is None and not _as_given(x):
                d = x - y
                if d.is_finite_const() and d.fraction() == 0:
                    core.W.order_tie = True
                    break
    return idx


def _as_given(x):
    """a short binary fraction or a linear form of the inputs: the same in floating point"""
    if x.den or any(len(m) > 1 or any(core.W.gens[g].kind != "input" for g in m) for m in x.num.t):
        return False
    return all((q := c.denominator) & (q - 1) == 0 and q < 2**40 for c in x.num.t.values())


@implements(np.argsort)
def _argsort(a, axis=-1, kind=None, order=None, **kw):
    nokw(kw, ("stable",))
    return _along(a, axis, _order, dtype=np.int64)


@implements(np.argpartition)
def _argpartition(a, kth, axis=-1, kind=None, order=None):
    return _along(a, axis, _order, dtype=np.int64)


@implements(np.lexsort)
def _lexsort(keys, axis=-1):
    ks = [list(wrap(_arr(k))) for k in keys]
    import functools

    def cmp(i, j):
        for k in reversed(ks):
            if k[i] < k[j]:
                return -1
            if k[i] > k[j]:
                return 1
        return 0

    return np.array(sorted(range(len(ks[0])), key=functools.cmp_to_key(cmp)))


def _argbest(better):
    def f(xs):
        if not xs:
            raise ValueError("attempt to get argmax of an empty sequence")
        for i, x in enumerate(xs):
            if x.sp == "nan":
                return i
        b = 0
        for i in range(1, len(xs)):
            if better(xs[i], xs[b]):
                b = i
        return b

    return f


def _argred(better, skipnan=False):
    f = _argbest(better)

    def g(xs):
        if skipnan:
            ids = [i for i, x in enumerate(xs) if x.sp != "nan"]
            if not ids:
                raise ValueError("All-NaN slice encountered")
            return ids[f([xs[i] for i in ids])]
        return f(xs)

    def h(a, axis=None, out=None, keepdims=False, **kw):
        nokw(dict(kw, out=out))
        r = _axis_apply(wrap(_arr(a)), axis, g, keepdims is True)
        if isinstance(r, np.ndarray):
            return np.asarray(r).astype(np.int64)
        return np.int64(r)

    return h


HANDLED[np.argmax] = _argred(operator.gt)
HANDLED[np.argmin] = _argred(operator.lt)
HANDLED[np.nanargmax] = _argred(operator.gt, True)
HANDLED[np.nanargmin] = _argred(operator.lt, True)


@implements(np.searchsorted)
def _searchsorted(a, v, side="left", sorter=None):
    xs = list(wrap(_arr(a)))
    if sorter is not None:
        xs = [xs[i] for i in np.asarray(sorter)]

    def one(x):
        # binary search, exactly the contract (xs assumed sorted)
        lo, hi = 0, len(xs)
        while lo < hi:
            m = (lo + hi) // 2
            go = (xs[m] < x) if side == "left" else (xs[m] <= x)
            if go:
                lo = m + 1
            else:
                hi = m
        return lo

    v = _arr(v)
    if v.ndim == 0:
        return np.int64(one(Sym.of(v[()]) if not isinstance(v[()], Sym) else v[()]))
    v = wrap(v)
    return np.array([one(x) for x in np.asarray(v).reshape(-1)], dtype=np.int64).reshape(v.shape)


@implements(np.unique)
def _unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, equal_nan=True, **kw):
    nokw(dict(kw, equal_nan=None if equal_nan else False))
    a = wrap(_arr(a))
    if axis is not None and a.ndim > 1:
        if axis not in (0,):
            raise Unsupported("unique axis")
        rows = [list(r) for r in np.asarray(a)]
        reps, inv = [], []
        for r in rows:
            for k, q in enumerate(reps):
                if all(bool(x == y) for x, y in zip(r, q)):
                    inv.append(k)
                    break
            else:
                inv.append(len(reps))
                reps.append(r)
        import functools

        def cmp(i, j):
            for x, y in zip(reps[i], reps[j]):
                if x < y:
                    return -1
                if x > y:
                    return 1
            return 0

        o = sorted(range(len(reps)), key=functools.cmp_to_key(cmp))
        vals = mk([reps[i] for i in o]) if reps else a[:0]
        pos = {old: new for new, old in enumerate(o)}
        inv = np.array([pos[i] for i in inv])
    else:
        xs = list(np.asarray(a).reshape(-1))
        o = globals()["order"](xs)
        reps, inv = [], np.zeros(len(xs), dtype=int)
        for i in o:
            if reps and (bool(xs[i] == reps[-1]) or (xs[i].sp == "nan" and reps[-1].sp == "nan")):
                inv[i] = len(reps) - 1
            else:
                reps.append(xs[i])
                inv[i] = len(reps) - 1
        vals = mk(reps)
    out = [vals]
    n = len(vals)
    if return_index:
        out.append(np.array([int(np.where(inv == k)[0][0]) for k in range(n)]))
    if return_inverse:
        out.append(inv)
    if return_counts:
        out.append(np.array([int(np.sum(inv == k)) for k in range(n)]))
    return out[0] if len(out) == 1 else tuple(out)


@implements(np.isin)
def _isin(element, test_elements, assume_unique=False, invert=False, **kw):
    nokw(kw, ("kind",))
    e, t = wrap(_arr(element)), list(np.asarray(wrap(_arr(test_elements))).reshape(-1))
    r = np.array([any(bool(x == y) for y in t) for x in np.asarray(e).reshape(-1)], dtype=bool).reshape(e.shape)
    return ~r if invert else r


@implements(np.where)
def _where(cond, *xy):
    c = _arr(cond)
    if c.dtype == object:
        c = wrap(c).astype(bool)
    if not xy:
        return np.where(c)
    x, y = xy
    xa, ya = _arr(x), _arr(y)
    c, xb, yb = np.broadcast_arrays(np.asarray(c), np.asarray(wrap(xa)), np.asarray(wrap(ya)))
    out = np.empty(c.shape, dtype=object)
    fo = out.reshape(-1)
    for i, (k, p, q) in enumerate(zip(c.reshape(-1), xb.reshape(-1), yb.reshape(-1))):
        fo[i] = p if k else q
    return fo.reshape(c.shape).view(SymArray)


@implements(np.select)
def _select(condlist, choicelist, default=0):
    out = _where(np.zeros(np.shape(condlist[0]), dtype=bool), 0, default)
    for c, v in reversed(list(zip(condlist, choicelist))):
        out = _where(c, v, out)
    return out


@implements(np.clip)
def _clip(a, a_min=None, a_max=None, out=None, **kw):
    nokw(kw)
    r = wrap(_arr(a))
    if a_min is not None:
        r = np.maximum(r, a_min)
    if a_max is not None:
        r = np.minimum(r, a_max)
    if out is not None:
        out[...] = r
        return out
    return r


@implements(np.nan_to_num)
def _nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    a = wrap(_arr(x))
    big = Sym.of(float(np.finfo(float).max))
    m = {"nan": Sym.of(nan), "inf": big if posinf is None else Sym.of(posinf), "-inf": -big if neginf is None else Sym.of(neginf)}
    r = mk([m[e.sp] if e.sp else e for e in a.reshape(-1)]).reshape(a.shape)
    if not copy and isinstance(x, SymArray):
        x[...] = r
        return x
    return r


@implements(np.round, np.around)
def _round(a, decimals=0, out=None):
    k = 10 ** decimals
    a = wrap(_arr(a))
    if decimals > 0:  # rounding of results: any number within half a unit (and non-decreasing)
        return mk([_round_dec(v, k) for v in np.asarray(a).reshape(-1)]).reshape(a.shape)
    return np.rint(a * k) / k


def _single(a, dt):
    """conversion to single (half) precision: some number within half a unit in the last place"""
    from .ufs import near

    bits = {4: 24, 2: 11}[dt.itemsize]
    out = [v if v.sp else Sym.of(float(dt.type(float(v.num.const())))) if v.is_const() else near(core.ENGINE, v, bits)
           for v in np.asarray(a, dtype=object).reshape(-1)]
    return mk(out).reshape(a.shape)


def _round_dec(v, k):
    from .ufs import nint

    if v.sp:
        return v
    return Sym.of(round(v.num.const() * k)) / k if v.is_const() else nint(core.ENGINE, v * k) / k


@implements(np.isclose)
def _isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    a, b = np.broadcast_arrays(np.asarray(wrap(_arr(a))), np.asarray(wrap(_arr(b))))
    out = np.empty(a.shape, dtype=bool)
    for i in np.ndindex(*a.shape):
        x, y = a[i], b[i]
        if x.sp or y.sp:
            out[i] = (x.sp == y.sp and (x.sp != "nan" or equal_nan))
        else:
            out[i] = bool(abs(x - y) <= Sym.of(atol) + Sym.of(rtol) * abs(y))
    return out if a.ndim else bool(out[()])


@implements(np.allclose)
def _allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return bool(np.all(_isclose(a, b, rtol, atol, equal_nan)))


@implements(np.array_equal)
def _array_equal(a, b, equal_nan=False):
    a, b = _arr(a), _arr(b)
    if a.shape != b.shape:
        return False
    for x, y in zip(np.asarray(wrap(a)).reshape(-1), np.asarray(wrap(b)).reshape(-1)):
        if equal_nan and x.sp == "nan" and y.sp == "nan":
            continue
        if not bool(x == y):
            return False
    return True


@implements(np.dot)
def _dot(a, b, out=None):
    a, b = _arr(a), _arr(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    return matmul(a, b)


HANDLED[np.matmul] = matmul
HANDLED[np.inner] = lambda a, b: matmul(a, np.transpose(b))
HANDLED[np.vdot] = lambda a, b: matmul(_arr(a).reshape(-1), _arr(b).reshape(-1))
HANDLED[np.linalg.multi_dot] = lambda arrays, out=None: __import__("functools").reduce(matmul, arrays)


@implements(np.outer)
def _outer(a, b, out=None):
    a, b = wrap(_arr(a)).reshape(-1, 1), wrap(_arr(b)).reshape(1, -1)
    return a * b


@implements(np.einsum)
def _einsum(sub, *ops, **kw):
    nokw(kw, ("optimize",))
    ops = [wrap(_arr(o)) for o in ops]
    sub = sub.replace(" ", "")
    if "->" in sub:
        lhs, rhs = sub.split("->")
    else:
        lhs = sub
        from collections import Counter

        cnt = Counter(sub.replace(",", ""))
        rhs = "".join(sorted(k for k, v in cnt.items() if v == 1))
    ins = lhs.split(",")
    dims = {}
    for s, o in zip(ins, ops):
        for ch, d in zip(s, o.shape):
            dims[ch] = d
    summed = [c for c in dims if c not in rhs]
    out = np.empty([dims[c] for c in rhs], dtype=object)
    for idx in np.ndindex(*out.shape):
        env = dict(zip(rhs, idx))
        tot = S0
        for s_idx in np.ndindex(*[dims[c] for c in summed]):
            env.update(zip(summed, s_idx))
            t = S1
            for s, o in zip(ins, ops):
                t = t * np.asarray(o)[tuple(env[c] for c in s)]
            tot = tot + t
        out[idx] = tot
    return out.view(SymArray) if out.ndim else out[()]


@implements(np.diag)
def _diag(v, k=0):
    v = wrap(_arr(v))
    if v.ndim == 1:
        n = v.shape[0] + abs(k)
        out = szeros((n, n))
        for i in range(v.shape[0]):
            out[(i, i + k) if k >= 0 else (i - k, i)] = v[i]
        return out
    return v.diagonal(k).copy()


@implements(np.fill_diagonal)
def _fill_diagonal(a, val, wrap=False):
    v = np.broadcast_to(np.asarray(_arr(val), dtype=object), (min(a.shape),))
    for i in range(min(a.shape)):
        a[i, i] = _sym_elem(v[i])


@implements(np.trace)
def _trace(a, *r, **k):
    if r and r[0] == 0:
        r = r[1:]
    nokw({str(i): v for i, v in enumerate(r)})
    off = k.pop("offset", 0)
    nokw(k, ("dtype",))
    return ssum(list(np.asarray(wrap(_arr(a))).diagonal(off)))


@implements(np.diff)
def _diff(a, n=1, axis=-1, prepend=np._NoValue, append=np._NoValue):
    a = wrap(_arr(a))
    for v, end in ((prepend, 0), (append, 1)):
        if v is not np._NoValue:
            v = wrap(_arr(v))
            if v.ndim == 0:
                sh = list(a.shape)
                sh[axis] = 1
                v = np.broadcast_to(np.asarray(v), sh)
            a = np.concatenate([a, v] if end else [v, a], axis=axis)
    for _ in range(n):
        sl = [slice(None)] * a.ndim
        s2 = [slice(None)] * a.ndim
        sl[axis], s2[axis] = slice(1, None), slice(None, -1)
        a = a[tuple(sl)] - a[tuple(s2)]
    return a


@implements(np.average)
def _average(a, axis=None, weights=None, returned=False, *, keepdims=False):
    a = wrap(_arr(a))
    kd = keepdims is True
    if weights is None:
        r = np.mean(a, axis=axis, keepdims=kd)
        sw = Sym.of(a.size if axis is None else a.shape[axis])
    else:
        w = wrap(_arr(weights))
        if w.shape != a.shape:
            if axis is None:
                raise TypeError("Axis must be specified when shapes of a and weights differ.")
            if w.ndim != 1:
                raise TypeError("1D weights expected when shapes of a and weights differ.")
            if w.shape[0] != a.shape[axis]:
                raise ValueError("Length of weights not compatible with specified axis.")
            sh = [1] * a.ndim
            sh[axis] = -1
            w = w.reshape(sh)
        sw = np.sum(np.broadcast_to(np.asarray(w), a.shape).view(SymArray), axis=axis, keepdims=kd)
        if any(bool(v == 0) for v in np.asarray(_arr(sw)).reshape(-1)):
            raise ZeroDivisionError("Weights sum to zero, can't be normalized")
        r = np.sum(a * w, axis=axis, keepdims=kd) / sw
    return (r, sw) if returned else r


@implements(np.cov)
def _cov(m, y=None, rowvar=True, bias=False, ddof=None, fweights=None, aweights=None, *, dtype=None):
    def rows(m):
        m = wrap(_arr(m))
        if m.ndim == 1:
            m = m.reshape(1, -1)
        elif not rowvar and m.shape[0] != 1:
            m = m.T
        return m

    X = rows(m)
    if y is not None:
        X = np.vstack([X, rows(y)])
    if ddof is None:
        ddof = 0 if bias else 1
    n = X.shape[1]
    Xa = [list(r) for r in np.asarray(X)]
    w = None
    for v in (fweights, aweights):
        if v is not None:
            v = list(wrap(_arr(v)))
            w = v if w is None else [a * b for a, b in zip(w, v)]
    if w is None:
        mu = [_mean(r) for r in Xa]
        W1, fact = [S1] * n, Sym.of(n - ddof)
    else:
        sw = ssum(w)
        mu = [ssum([a * b for a, b in zip(w, r)]) / sw for r in Xa]
        W1 = w
        if ddof == 0:
            fact = sw
        elif aweights is None:
            fact = sw - ddof
        else:
            aw = list(wrap(_arr(aweights)))
            fact = sw - Sym.of(ddof) * ssum([a * b for a, b in zip(w, aw)]) / sw
    neg = bool(fact <= 0)
    C = [[x - mu[i] for x in r] for i, r in enumerate(Xa)]
    p = len(C)
    out = np.empty((p, p), dtype=object)
    for i in range(p):
        for j in range(i, p):
            if neg:
                v = NAN
            else:
                v = ssum([a * b * q for a, b, q in zip(C[i], C[j], W1)]) / fact
            out[i, j] = out[j, i] = v
    out = out.view(SymArray)
    if p == 1:
        return out.reshape(())
    return out


@implements(np.corrcoef)
def _corrcoef(x, y=None, rowvar=True, bias=None, ddof=None, **kw):
    if y is not None:
        x = np.vstack([_arr(x), _arr(y)])
        rowvar = True
    c = _cov(x, rowvar=rowvar)
    if c.ndim == 0:
        return c[()] / c[()]
    d = [c[i, i].sqrt() for i in range(c.shape[0])]
    p = c.shape[0]
    out = np.empty((p, p), dtype=object)
    for i in range(p):
        for j in range(p):
            out[i, j] = c[i, j] / d[j] / d[i]
            # numpy clips to [-1, 1]: no effect in exact arithmetic
    return out.view(SymArray)


# -- linear algebra ----------------------------------------------------------------------------
def det_list(A):
    n = len(A)
    if n == 0:
        return S1
    if n == 1:
        return A[0][0]
    if n == 2:
        return A[0][0] * A[1][1] - A[0][1] * A[1][0]
    r = S0
    for j in range(n):
        if not A[0][j].sp and not A[0][j].num.t:
            continue
        m = [row[:j] + row[j + 1:] for row in A[1:]]
        t = A[0][j] * det_list(m)
        r = r + t if j % 2 == 0 else r - t
    return r


def _mat(a, square=True):
    a = wrap(_arr(a))
    if a.ndim != 2:
        raise np.linalg.LinAlgError(
            f"{a.ndim}-dimensional array given. Array must be at least two-dimensional")
    if square and a.shape[0] != a.shape[1]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    return [list(r) for r in np.asarray(a)]


@implements(np.linalg.det)
def sdet(a):
    a = wrap(_arr(a))
    return det_list(_mat(a))


def inv_list(A):
    n = len(A)
    if any(x.sp for r in A for x in r):
        return [[NAN] * n for _ in range(n)]
    # block structure: diagonal matrices are inverted entrywise
    if all(i == j or (not A[i][j].num.t) for i in range(n) for j in range(n)):
        out = [[S0] * n for _ in range(n)]
        for i in range(n):
            if bool(A[i][i] == 0):
                raise np.linalg.LinAlgError("Singular matrix")
            out[i][i] = S1 / A[i][i]
        return out
    d = det_list(A)
    if bool(d == 0):
        raise np.linalg.LinAlgError("Singular matrix")
    di = S1 / d
    out = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            m = [row[:i] + row[i + 1:] for k, row in enumerate(A) if k != j]
            c = det_list(m)
            out[i][j] = (c if (i + j) % 2 == 0 else -c) * di
    return out


@implements(np.linalg.inv)
def sinv(a):
    return mk(inv_list(_mat(a))).reshape(np.shape(a))


def spinv(a, rcond=None, hermitian=False):
    if rcond is not None and float(rcond) > 1e-12:
        raise Unsupported("pinv cutoff")
    try:
        return sinv(a)
    except np.linalg.LinAlgError:
        A = wrap(_arr(a))
        if concrete(A) is not None:
            return wrap(np.linalg.pinv(concrete(A)))
        n = A.shape[0]
        if n == 1:
            return mk([[S0]])
        raise Unsupported("pseudo-inverse of a singular matrix")


HANDLED[np.linalg.pinv] = spinv


@implements(np.linalg.slogdet)
def _slogdet(a):
    d = sdet(a)
    s = d.sign()
    if s == 0:
        return S0, core.NINF
    return Sym.of(s), abs(d).log()


@implements(np.linalg.solve)
def _solve(a, b):
    return matmul(sinv(a), b)


@implements(np.linalg.norm)
def _norm(x, ord=None, axis=None, keepdims=False):
    x = wrap(_arr(x))
    if ord in (None, 2, "fro") and (x.ndim == 1 or axis is not None or ord != 2):
        return _axis_apply(x, axis, lambda v: ssum([e * e for e in v]).sqrt(), keepdims)
    if ord == 1 and (x.ndim == 1 or isinstance(axis, int)):
        return _axis_apply(x, axis, lambda v: ssum([abs(e) for e in v]), keepdims)
    if ord == np.inf and (x.ndim == 1 or isinstance(axis, int)):
        return _axis_apply(x, axis, lambda v: smax([abs(e) for e in v]), keepdims)
    raise Unsupported("norm ord")


@implements(np.linalg.matrix_rank)
def _rank(M, tol=None, hermitian=False, **kw):
    A = _mat(M, square=False)
    if A and A[0] and all(x.sp is None for row in A for x in row):
        F = ground_floats(A)
        if F is None:
            F = common_factor(A)
            F = F and F[1]
        if F:
            return int(np.linalg.matrix_rank(np.array(F), tol=tol if tol is None else float(tol), hermitian=hermitian))
    rows, r = len(A), 0
    cols = len(A[0]) if A else 0
    A = [row[:] for row in A]
    for c in range(cols):
        piv = next((i for i in range(r, rows) if bool(A[i][c] != 0)), None)
        if piv is None:
            continue
        A[r], A[piv] = A[piv], A[r]
        for i in range(r + 1, rows):
            f = A[i][c] / A[r][c]
            A[i] = [x - f * y for x, y in zip(A[i], A[r])]
        r += 1
    return r


def _ground(gid, seen):
    r = seen.get(gid)
    if r is None:
        g = core.W.gens[gid]
        r = seen[gid] = g.kind == "sqrt" and all(_ground(i, seen) for i in g.arg.gen_ids())
    return r


def ground_floats(A):
    """nested list of entries that do not depend on any unknown -> floats, else None"""
    seen = {}
    if not all(x.sp is None and all(_ground(i, seen) for i in x.gen_ids()) for r in A for x in r):
        return None
    eng = core.ENGINE
    return [[float(eng.eval_sym(x)[0]) for x in r] for r in A]


def common_factor(A):
    """nested list of entries that are one positive factor times numbers -> (factor, floats), else None"""
    a = next((x for r in A for x in r if not (x.sp is None and not x.num.t)), None)
    if a is None or a.sp is not None:
        return None
    if bool(a < 0):
        a = -a
    G = ground_floats([[x / a for x in r] for r in A])
    return None if G is None else (a, G)


def eigh_list(A):
    """ascending eigenvalues and orthonormal eigenvectors (columns) of a symmetric matrix"""
    n = len(A)
    if n == 1:
        return [A[0][0]], [[S1]]
    # constant matrices: the real routine
    if all(x.is_const() for r in A for x in r):
        w, v = np.linalg.eigh(np.array([[x.to_float() for x in r] for r in A]))
        return [Sym.of(x) for x in w], [[Sym.of(x) for x in r] for r in v]
    G = ground_floats(A) if n > 2 else None
    if G is not None:
        w, v = np.linalg.eigh(np.array(G))
        return [Sym.of(x) for x in w], [[Sym.of(x) for x in r] for r in v]
    F = common_factor(A) if n > 2 else None
    if F is not None:
        w, v = np.linalg.eigh(np.array(F[1]))
        return [F[0] * Sym.of(x) for x in w], [[Sym.of(x) for x in r] for r in v]
    # block-diagonal: a row/column with zero off-diagonals splits off
    if n == 2:
        a, b, d = A[0][0], A[1][0], A[1][1]  # eigh reads the lower triangle
        if bool(b == 0):
            if bool(a <= d):
                return [a, d], [[S1, S0], [S0, S1]]
            return [d, a], [[S0, S1], [S1, S0]]
        h = (a - d) / 2
        if not h.sp and not h.num.t:
            s2 = Sym.of(Fraction(1, 2)).sqrt()
            if bool(b > 0):
                return [a - b, a + b], [[-s2, s2], [s2, s2]]
            return [a + b, a - b], [[s2, -s2], [s2, s2]]
        r = (h * h + b * b).sqrt()
        m = (a + d) / 2
        lo, hi = m - r, m + r
        # eigenvector for hi: (b, hi - a) or (hi - d, b); both fine as b != 0
        x, y = b, hi - a
        nr = (x * x + y * y).sqrt()
        x, y = x / nr, y / nr
        return [lo, hi], [[-y, x], [x, y]]
    raise Unsupported(f"eigen-decomposition of a symbolic {n}x{n} matrix")


@implements(np.linalg.eigh)
def seigh(a, UPLO="L"):
    w, v = eigh_list(_mat(a))
    return mk(w), mk(v)


@implements(np.linalg.eigvalsh)
def seigvalsh(a, UPLO="L"):
    return mk(eigh_list(_mat(a))[0])


@implements(np.linalg.cholesky)
def _chol(a):
    A = _mat(a)
    n = len(A)
    L = [[S0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1):
            s = ssum([L[i][k] * L[j][k] for k in range(j)])
            if i == j:
                v = A[i][i] - s
                if not bool(v > 0):
                    raise np.linalg.LinAlgError("Matrix is not positive definite")
                L[i][j] = v.sqrt()
            else:
                L[i][j] = (A[i][j] - s) / L[j][j]
    return mk(L)


@implements(np.linalg.svd)
def _svd(a, full_matrices=True, compute_uv=True, hermitian=False):
    X = wrap(_arr(a))
    c = concrete(X)
    if c is None and X.ndim == 2:
        c = ground_floats([list(r) for r in X])
        c = None if c is None else np.array(c)
    if c is not None:
        r = np.linalg.svd(c, full_matrices=full_matrices, compute_uv=compute_uv)
        return tuple(wrap(x) for x in r) if compute_uv else wrap(r)
    if not full_matrices and compute_uv and X.shape[0] >= X.shape[1] and X.shape[1] <= 2:
        w, v = eigh_list(_mat(matmul(X.T, X)))
        order_ = list(range(len(w)))[::-1]
        s = [w[i].sqrt() for i in order_]
        if any(bool(x == 0) for x in s):
            raise Unsupported("svd of a rank deficient symbolic matrix")
        V = mk([[v[r][i] for i in order_] for r in range(len(v))])
        U = matmul(X, V) / mk(s)
        return U, mk(s), V.T
    if full_matrices and compute_uv and X.shape[1] <= 2 and X.shape[0] >= 1:
        w, v = eigh_list(_mat(matmul(X.T, X)))
        order_ = list(range(len(w)))[::-1]
        V = mk([[v[r][i] for i in order_] for r in range(len(v))])
        s = [w[i].sqrt() for i in order_][: min(X.shape)]
        return None, mk(s), V.T
    raise Unsupported("svd")


@implements(np.linalg.lstsq)
def _lstsq(a, b, rcond=None):
    A, B = wrap(_arr(a)), wrap(_arr(b))
    sol = matmul(sinv(matmul(A.T, A)), matmul(A.T, B))
    res = B - matmul(A, sol)
    return sol, np.sum(res * res, axis=0, keepdims=True), A.shape[1], None


@implements(np.interp)
def _interp(x, xp, fp, left=None, right=None, period=None):
    raise Unsupported("interp")


@implements(np.copyto)
def _copyto(dst, src, casting="same_kind", where=True):
    s = np.broadcast_to(np.asarray(wrap(_arr(src))), dst.shape)
    w = np.broadcast_to(np.asarray(where), dst.shape)
    for i in np.ndindex(*dst.shape):
        if w[i]:
            dst[i] = s[i]


@implements(np.result_type)
def _result_type(*a):
    return np.dtype(float)


@implements(np.array_str, np.array_repr, np.array2string)
def _str(a, *r, **k):
    return str(np.asarray(a, dtype=object).tolist())


@implements(np.count_nonzero)
def _count_nonzero(a, axis=None, **kw):
    return np.count_nonzero(wrap(_arr(a)).astype(bool), axis=axis, **kw)


@implements(np.nonzero)
def _nonzero(a):
    return np.nonzero(wrap(_arr(a)).astype(bool))


@implements(np.flatnonzero)
def _flatnonzero(a):
    return np.flatnonzero(wrap(_arr(a)).astype(bool))


@implements(np.argwhere)
def _argwhere(a):
    return np.argwhere(wrap(_arr(a)).astype(bool))


@implements(np.zeros_like)
def _zeros_like(a, dtype=None, *r, shape=None, **k):
    sh = shape if shape is not None else np.shape(a)
    if dtype is None and isinstance(a, (np.ndarray, np.generic)) and a.dtype.kind in "iub":
        dtype = a.dtype
    if dtype is not None and np.dtype(dtype).kind not in "fO":
        return np.zeros(sh, dtype=dtype)
    return szeros(sh)


@implements(np.empty_like)
def _empty_like(a, dtype=None, *r, shape=None, **k):
    return _zeros_like(a, dtype, shape=shape)


@implements(np.ones_like)
def _ones_like(a, dtype=None, *r, shape=None, **k):
    sh = shape if shape is not None else np.shape(a)
    if dtype is not None and np.dtype(dtype).kind not in "fO":
        return np.ones(sh, dtype=dtype)
    return sfull(sh, S1)


@implements(np.full_like)
def _full_like(a, fill_value, dtype=None, *r, shape=None, **k):
    sh = shape if shape is not None else np.shape(a)
    if dtype is not None and np.dtype(dtype).kind not in "fO":
        return np.full(sh, fill_value, dtype=dtype)
    return sfull(sh, _sym_elem(fill_value))


@implements(np.apply_along_axis)
def _apply_along_axis(func1d, axis, arr, *args, **kw):
    a = wrap(_arr(arr))
    b = np.moveaxis(a, axis, -1)
    rs = {}
    for idx in np.ndindex(*b.shape[:-1]):
        rs[idx] = func1d(b[idx], *args, **kw)
    first = next(iter(rs.values()))
    fs = np.shape(first)
    isint = not has_sym(list(rs.values()))
    out = np.empty(b.shape[:-1] + fs, dtype=object)
    for idx, r in rs.items():
        out[idx] = np.asarray(r, dtype=object) if fs else r
    if isint:
        out = np.array(out.tolist())
    else:
        out = wrap(out)
    if fs:
        out = np.moveaxis(out, -1, axis)
    return out


def szeros(shape):
    return sfull(shape, S0)


def sfull(shape, v):
    out = np.empty(shape, dtype=object)
    out[...] = v
    return out.view(SymArray)


PASS = {
    np.concatenate, np.stack, np.hstack, np.vstack, np.column_stack, np.reshape, np.ravel, np.transpose, np.moveaxis,
    np.swapaxes, np.expand_dims, np.squeeze, np.delete, np.insert, np.append, np.copy, np.tile, np.repeat, np.flip,
    np.fliplr, np.flipud, np.roll, np.take, np.array_split, np.split, np.shape, np.ndim, np.size, np.broadcast_to,
    np.broadcast_arrays, np.atleast_1d, np.atleast_2d, np.diagonal, np.ix_, np.compress, np.take_along_axis,
    np.put_along_axis, np.tril, np.triu, np.rot90, np.block, np.iscomplexobj, np.isrealobj, np.hsplit, np.vsplit,
    np.dstack, np.may_share_memory, np.shares_memory, np.real, np.imag, np.cumsum, np.cumprod, np.meshgrid,
}


def _patched_impl(f):
    return f


# concatenate is C-implemented: no _implementation on some versions -> handle explicitly
@implements(np.concatenate)
def _concatenate(arrays, axis=0, out=None, **kw):
    nokw(dict(kw, out=out), ("casting", "dtype"))
    arrs = [np.asarray(wrap(_arr(a))) for a in arrays]
    return np.concatenate(arrs, axis=axis).view(SymArray)


@implements(np.copy)
def _copy(a, order="K", subok=False):
    return wrap(_arr(a)).copy()


@implements(np.cumsum)
def _cumsum(a, axis=None, **kw):
    nokw(kw)
    return _accumulate("add", wrap(_arr(a)), axis)


@implements(np.cumprod)
def _cumprod(a, axis=None, **kw):
    nokw(kw)
    return _accumulate("multiply", wrap(_arr(a)), axis)


@implements(np.real)
def _real(a):
    return a


@implements(np.iscomplexobj)
def _iscomplexobj(a):
    return False


@implements(np.triu)
def _triu(m, k=0):
    m = wrap(_arr(m)).copy()
    for i in range(m.shape[0]):
        for j in range(m.shape[1]):
            if j - i < k:
                m[i, j] = S0
    return m


@implements(np.tril)
def _tril(m, k=0):
    m = wrap(_arr(m)).copy()
    for i in range(m.shape[0]):
        for j in range(m.shape[1]):
            if j - i > k:
                m[i, j] = S0
    return m
