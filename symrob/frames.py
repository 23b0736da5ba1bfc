"""pandas DataFrames holding symbolic cells: object columns, with `.values` handing out SymArrays.

DataFrame bookkeeping (labels, drop, assignment, concat) is pandas' own; only the numeric reductions the
repository applies to frames are replaced."""
from __future__ import annotations

import numpy as np
import pandas as pd

from . import arrays as A
from .arrays import SymArray, mk, wrap
from .core import NAN, S0, Sym


def _cells(df):
    return pd.DataFrame.to_numpy(df, dtype=object)


def _ufunc(self, ufunc, method, *inputs, **kw):
    """numpy functions on frames: the symbolic cells as an array, labels put back"""
    if method != "__call__" or kw.get("out") is not None or sum(isinstance(x, (pd.Series, pd.DataFrame)) for x in inputs) != 1:
        return NotImplemented
    r = ufunc(*[x.values if isinstance(x, (SymSeries, SymFrame)) else x for x in inputs], **kw)
    if np.shape(r) != self.shape:
        return r
    sym = getattr(r, "dtype", None) == object
    if isinstance(self, pd.Series):
        return (SymSeries if sym else pd.Series)(np.asarray(r), index=self.index, name=self.name)
    return (SymFrame if sym else pd.DataFrame)(np.asarray(r), index=self.index, columns=self.columns)


class SymSeries(pd.Series):
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        r = _ufunc(self, ufunc, method, *inputs, **kw) if A.has_sym(pd.Series.to_numpy(self)) else NotImplemented
        return pd.Series.__array_ufunc__(self, ufunc, method, *inputs, **kw) if r is NotImplemented else r
    @property
    def _constructor(self):
        return SymSeries

    @property
    def _constructor_expanddim(self):
        return SymFrame

    @property
    def values(self):
        v = pd.Series.to_numpy(self)
        return wrap(v.copy()) if v.dtype == object and A.has_sym(v) else v

    def to_numpy(self, *a, **k):
        return self.values

    def __array__(self, *a, **k):
        return np.asarray(pd.Series.to_numpy(self))

    def isna(self):
        v = pd.Series.to_numpy(self)
        return pd.Series([_isna(x) for x in v], index=self.index)

    isnull = isna

    def notna(self):
        return ~self.isna()

    def fillna(self, value=None, **k):
        v = pd.Series.to_numpy(self)
        return SymSeries([value if _isna(x) else x for x in v], index=self.index, name=self.name, dtype=object)

    def nunique(self, dropna=True):
        return _nunique(pd.Series.to_numpy(self), dropna)


def _nunique(v, dropna=True):
    """number of different values (forks on equality of symbolic values)"""
    seen, na = [], False
    for x in v:
        if _isna(x):
            na = True
        elif not any(bool(x == y) for y in seen):
            seen.append(x)
    return len(seen) + (na and not dropna)


def to_numeric(arg, errors="raise", downcast=None):
    v = pd.Series.to_numpy(arg) if isinstance(arg, pd.Series) else None
    if v is None or not A.has_sym(v):
        return pd.to_numeric(arg, errors=errors, downcast=downcast)
    out = []
    for x in v:
        if isinstance(x, Sym) or x is None:
            out.append(x)
        else:
            out.append(pd.to_numeric(pd.Series([x], dtype=object), errors=errors).iloc[0])
    return SymSeries(out, index=arg.index, name=arg.name, dtype=object)


def _match(x, r):
    if isinstance(x, Sym):
        if isinstance(r, float) and (r != r or r in (float("inf"), float("-inf"))):
            return x.sp == {"nan": "nan", "inf": "inf", "-inf": "-inf"}[str(r)]
        if isinstance(r, (bool, np.bool_, str)) or r is None:
            return False
        return bool(x == r)
    if isinstance(r, float) and r != r:
        return _isna(x)
    if isinstance(x, (bool, np.bool_)) != isinstance(r, (bool, np.bool_)):
        return False
    try:
        return bool(x == r)
    except Exception:
        return False


def _isna(x):
    if isinstance(x, Sym):
        return x.sp == "nan"
    return bool(pd.isna(x))


class SymFrame(pd.DataFrame):
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        r = _ufunc(self, ufunc, method, *inputs, **kw) if A.has_sym(_cells(self)) else NotImplemented
        return pd.DataFrame.__array_ufunc__(self, ufunc, method, *inputs, **kw) if r is NotImplemented else r
    @property
    def _constructor(self):
        return SymFrame

    @property
    def _constructor_sliced(self):
        return SymSeries

    @classmethod
    def make(cls, X, columns=None, index=None):
        a = np.asarray(X, dtype=object)
        return cls(a.copy(), columns=columns, index=index).infer_objects()

    @property
    def values(self):
        v = _cells(self)
        if v.dtype == object and A.has_sym(v):
            return wrap(v.copy())
        return pd.DataFrame(self).to_numpy()

    def to_numpy(self, dtype=None, *a, **k):
        return self.values

    def isna(self):
        v = _cells(self)
        out = np.array([[_isna(x) for x in r] for r in v], dtype=bool).reshape(v.shape)
        return pd.DataFrame(out, index=self.index, columns=self.columns)

    isnull = isna

    def notna(self):
        return ~self.isna()

    def replace(self, to_replace=None, value=None, **k):
        if k or isinstance(to_replace, dict) or isinstance(value, (list, dict)) or not A.has_sym(_cells(self)):
            return pd.DataFrame.replace(self, to_replace, value, **k)
        rs = list(to_replace) if isinstance(to_replace, (list, tuple)) else [to_replace]
        v = _cells(self)
        out = np.empty(v.shape, dtype=object)
        for i in np.ndindex(*v.shape):
            out[i] = value if any(_match(v[i], r) for r in rs) else v[i]
        return SymFrame(out, index=self.index, columns=self.columns).infer_objects()

    def nunique(self, axis=0, dropna=True):
        v = _cells(self)
        if axis in (1, "columns"):
            return pd.Series([_nunique(r, dropna) for r in v], index=self.index)
        return pd.Series([_nunique(v[:, j], dropna) for j in range(v.shape[1])], index=self.columns)

    def astype(self, dtype, *a, **k):
        if dtype not in (float, np.float64, "float", "float64") or not A.has_sym(_cells(self)):
            return pd.DataFrame.astype(self, dtype, *a, **k)
        v = _cells(self)
        out = np.empty(v.shape, dtype=object)
        for i in np.ndindex(*v.shape):
            out[i] = v[i] if isinstance(v[i], Sym) else Sym.of(float(v[i]))
        return SymFrame(out, index=self.index, columns=self.columns)

    def __array__(self, *a, **k):
        return np.asarray(_cells(self))

    def select_dtypes(self, include=None, exclude=None):
        if exclude is not None or include not in (np.number, "number", [np.number], ["number"], float, [float]):
            return pd.DataFrame.select_dtypes(self, include, exclude)
        keep = []
        for c in range(self.shape[1]):
            v = pd.Series.to_numpy(self.iloc[:, c])
            keep.append(v.dtype.kind in "fiu" or (A.has_sym(v) and all(isinstance(x, (Sym, float, int, np.number)) and not isinstance(x, (bool, np.bool_)) for x in v)))
        return self.iloc[:, keep]


class _Maker(type):
    """pandas' constructors: a symbolic frame or series if there are symbolic cells"""

    def __call__(cls, data=None, *a, **k):
        if isinstance(data, SymArray):
            data = np.asarray(data, dtype=object)
        r = cls._real(data, *a, **k)
        if not isinstance(r, cls._sym) and A.has_sym(np.asarray(r.to_numpy(), dtype=object)):
            r = cls._sym(r)
        return r.infer_objects() if isinstance(data, np.ndarray) and data.dtype == object else r

    def __instancecheck__(cls, x):
        return isinstance(x, cls._real)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._real)

    def __getattr__(cls, n):
        return getattr(cls._real, n)


class FrameMaker(metaclass=_Maker):
    _real, _sym = pd.DataFrame, SymFrame


class SeriesMaker(metaclass=_Maker):
    _real, _sym = pd.Series, SymSeries
