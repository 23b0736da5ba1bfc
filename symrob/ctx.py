"""Harness context: the same harness body runs symbolically and, for replays, natively on floats."""
from __future__ import annotations

import math
from fractions import Fraction

import numpy as np

from . import core
from .core import ALL, NEG, POS, S0, ZERO, Infeasible, Sym
from .engine import Cond, _cond

F = Fraction


def _labels(n):
    """row labels of a frame: unsorted, so that positions and labels cannot be confused"""
    return [(64 * i + 50) % 101 for i in range(n)]


class Violation(BaseException):
    def __init__(self, label):
        super().__init__(label)
        self.label = label


class Skip(BaseException):
    """native run: the input does not satisfy an assumption"""


# ---------------------------------------------------------------------------------------- symbolic
class SymCtx:
    symbolic = True

    def __init__(self, eng, report):
        self.eng = eng
        self.report = report  # callback(label, status, models)
        self.observed = []
        self.names = []
        self.choices = []
        self.nfresh = 0
        self.reached = 0
        self.cleanup = []

    # inputs
    def real(self, name, sign=None, lo=None, hi=None):
        s = {None: ALL, "pos": POS, "nonneg": POS | ZERO}[sign]
        v = self.eng.input(name, s)
        if lo is not None:
            self.eng.assume(v - Sym.of(lo), POS | ZERO)
        if hi is not None:
            self.eng.assume(v - Sym.of(hi), NEG | ZERO)
        return v

    def const(self, x):
        return Sym.of(x)

    def array(self, x):
        from . import arrays

        return arrays.mk(x)

    def vec(self, name, n, **k):
        return self.array([self.real(f"{name}{i}", **k) for i in range(n)])

    def mat(self, name, n, p, **k):
        return self.array([[self.real(f"{name}{i}_{j}", **k) for j in range(p)] for i in range(n)])

    def frame(self, X, columns, index=None):
        from .frames import SymFrame

        return SymFrame.make(X, columns, _labels(len(X)) if index is None else index)

    def cdf(self, dist, v, *params):
        from . import patch

        return patch._DistProxy(dist).cdf(v, *params)

    def choose(self, n):
        c = self.eng.choose(n)
        self.choices.append(c)
        return c

    def if_(self, a, op, b):
        """fork on a comparison; returns bool"""
        import operator

        return bool({"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge, "==": operator.eq}[op](
            Sym.of(a), Sym.of(b)))

    # assumptions (no fork)
    def assume(self, a, op, b):
        d = Sym.of(a) - Sym.of(b)
        self.eng.assume(d, {"<": NEG, "<=": NEG | ZERO, ">": POS, ">=": POS | ZERO, "==": ZERO, "!=": NEG | POS}[op])

    def stop(self):
        raise Infeasible()

    # conditions
    def cmp(self, a, op, b, tol=0.0):
        a, b = Sym.of(a), Sym.of(b)
        if a.sp or b.sp:
            if a.sp == "nan" or b.sp == "nan":
                return Cond("const", False)
            if op in ("==",):
                return Cond("const", a.sp == b.sp)
            r = {"inf": 1, "-inf": -1, None: 0}
            d = r[a.sp] - r[b.sp]
            if d == 0:
                return Cond("const", op in ("<=", ">="))
            return Cond("const", (d < 0) == (op in ("<", "<=")))
        d = a - b
        t = Sym.of(tol)
        if op == "==":
            if _near_zero(a, b, d):
                return Cond("const", True)
            return Cond("and", Cond("atom", d - t, NEG | ZERO), Cond("atom", d + t, POS | ZERO))
        if op == "<=":
            return Cond("atom", d - t, NEG | ZERO)
        if op == ">=":
            return Cond("atom", d + t, POS | ZERO)
        return Cond("atom", d, NEG if op == "<" else POS)

    def eq(self, a, b, tol=1e-6):
        return self.cmp(a, "==", b, tol)

    def le(self, a, b, tol=1e-6):
        return self.cmp(a, "<=", b, tol)

    def ge(self, a, b, tol=1e-6):
        return self.cmp(a, ">=", b, tol)

    def lt(self, a, b):
        return self.cmp(a, "<", b)

    def gt(self, a, b):
        return self.cmp(a, ">", b)

    def is_nan(self, a):
        return Cond("const", isinstance(a, Sym) and a.sp == "nan")

    def finite(self, a):
        return Cond("const", Sym.of(a).sp is None)

    def is_inf(self, a):
        return Sym.of(a).sp not in (None, "nan")

    def all(self, conds):
        cs = [_cond(c) for c in conds]
        return Cond("and", *cs) if cs else Cond("const", True)

    def any(self, conds):
        cs = [_cond(c) for c in conds]
        return Cond("or", *cs) if cs else Cond("const", False)

    def count_le(self, conds, k):
        return Cond("count_le", [_cond(c) for c in conds], int(k))

    def count_ge(self, conds, k):
        return Cond("count_ge", [_cond(c) for c in conds], int(k))

    def eq_arr(self, a, b, tol=1e-6):
        a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        if a.shape != b.shape:
            return Cond("const", False)
        return self.all([self.eq(x, y, tol) for x, y in zip(a.reshape(-1), b.reshape(-1))])

    def check(self, cond, label):
        self.reached += 1
        if not isinstance(cond, Cond):
            cond = Cond("const", bool(cond))
        if cond.op == "and":
            for c in cond.args:
                self._check1(c, label)
        else:
            self._check1(cond, label)

    def _check1(self, cond, label):
        if cond.op == "and":
            for c in cond.args:
                self._check1(c, label)
            return
        if self.report.skip(label):
            return
        st, mdl = self.eng.check_cond(cond)
        if st == "violated":
            self.report.violation(self, cond, label, mdl)
        elif st == "unknown":
            self.report.unknown(self, label)

    def observe(self, name, v):
        self.observed.append((name, v))

    def float_(self, v):
        return v

    def tanh(self, v):
        return Sym.of(v).tanh()

    def exp(self, v):
        return Sym.of(v).exp()

    def log(self, v):
        return Sym.of(v).log()

    def sqrt(self, v):
        return Sym.of(v).sqrt()


def _near_zero(a: Sym, b: Sym, d: Sym):
    """d == 0 up to coefficientwise rounding (relative 1e-9) of float constants in the code."""
    if not d.num.t:
        return True
    if a.is_const() and b.is_const():
        x, y = a.num.const(), b.num.const()
        return abs(x - y) <= F(1, 10**9) * max(abs(x), abs(y), F(1, 10**3))
    if a.den != b.den:
        return False
    for m, c in d.num.t.items():
        r = max(abs(a.num.t.get(m, F(0))), abs(b.num.t.get(m, F(0))))
        if abs(c) > r * F(1, 10**9):
            return False
    return True


# ---------------------------------------------------------------------------------------- native
class K:
    """Kleene truth value used natively: True / False / None (within tolerance)."""

    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __and__(self, o):
        o = _k(o)
        if self.v is False or o.v is False:
            return K(False)
        return K(None if self.v is None or o.v is None else True)

    def __or__(self, o):
        o = _k(o)
        if self.v is True or o.v is True:
            return K(True)
        return K(None if self.v is None or o.v is None else False)

    __rand__ = __and__
    __ror__ = __or__

    def __invert__(self):
        return K(None if self.v is None else not self.v)

    def __bool__(self):
        raise RuntimeError("K used as bool")


def _k(x):
    if isinstance(x, K):
        return x
    return K(bool(x))


class NatCtx:
    symbolic = False

    def __init__(self, model, choices, scale_tol=1.0):
        self.model = model
        self.choices_in = list(choices)
        self.choices = []
        self.failed = []
        self.observed = []
        self.reached = 0
        self.borderline = 0
        self.cleanup = []

    def real(self, name, sign=None, lo=None, hi=None):
        v = self.model.get(name)
        if v is None and "generic" in self.model:
            from .engine import generic_value

            v = float(generic_value(name, POS if sign else ALL))
            if (lo is not None and v < float(lo)) or (hi is not None and v > float(hi)):
                a = v - 1 if lo is None else float(lo)
                v = a + (abs(v) % 1 * 0.61 + 0.17) * ((a + 1 if hi is None else float(hi)) - a)
        if v is None:
            v = 1.0 if sign else 0.0
        v = float(v)
        if lo is not None and v < float(lo) - 1e-12:
            raise Skip()
        if hi is not None and v > float(hi) + 1e-12:
            raise Skip()
        if (sign == "pos" and v <= 0) or (sign == "nonneg" and v < 0):
            raise Skip()
        return v

    def const(self, x):
        return float(x)

    def array(self, x):
        return np.array(x, dtype=float)

    def vec(self, name, n, **k):
        return self.array([self.real(f"{name}{i}", **k) for i in range(n)])

    def mat(self, name, n, p, **k):
        return self.array([[self.real(f"{name}{i}_{j}", **k) for j in range(p)] for i in range(n)])

    def frame(self, X, columns, index=None):
        import pandas as pd

        return pd.DataFrame(np.array(X, dtype=float), columns=columns,
                            index=_labels(len(X)) if index is None else index)

    def cdf(self, dist, v, *params):
        return float(dist.cdf(float(v), *params))

    def choose(self, n):
        if n <= 1:
            c = 0
        else:
            i = len(self.choices)
            c = self.choices_in[i] if i < len(self.choices_in) else 0
        self.choices.append(c)
        return c

    def if_(self, a, op, b):
        a, b = float(a), float(b)
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b}[op]

    def assume(self, a, op, b):
        a, b = float(a), float(b)
        t = 1e-9 * (1 + abs(a) + abs(b))
        ok = {"<": a < b, "<=": a <= b + t, ">": a > b, ">=": a >= b - t, "==": abs(a - b) <= t, "!=": a != b}[op]
        if not ok:
            raise Skip()

    def stop(self):
        raise Skip()

    def cmp(self, a, op, b, tol=0.0):
        a, b = _nf(a), _nf(b)
        if math.isnan(a) or math.isnan(b):
            return K(False)
        if math.isinf(a) or math.isinf(b):
            return K({"==": a == b, "<=": a <= b, ">=": a >= b, "<": a < b, ">": a > b}[op])
        d = a - b
        slack = 1e-9 * (abs(a) + abs(b)) + 1e-12
        tol = float(tol) / 2 if tol else 0.0
        if op == "==":
            return K(True) if abs(d) <= tol + slack else K(False)
        if op == "<=":
            return K(True) if d <= 0 else (K(None) if d <= tol + slack else K(False))
        if op == ">=":
            return K(True) if d >= 0 else (K(None) if d >= -tol - slack else K(False))
        if op == "<":
            return K(True) if d < 0 else (K(None) if 0 < d <= slack else K(False))
        return K(True) if d > 0 else (K(None) if -slack <= d < 0 else K(False))

    def eq(self, a, b, tol=1e-6):
        return self.cmp(a, "==", b, tol)

    def le(self, a, b, tol=1e-6):
        return self.cmp(a, "<=", b, tol)

    def ge(self, a, b, tol=1e-6):
        return self.cmp(a, ">=", b, tol)

    def lt(self, a, b):
        return self.cmp(a, "<", b)

    def gt(self, a, b):
        return self.cmp(a, ">", b)

    def is_nan(self, a):
        return K(bool(math.isnan(_nf(a))))

    def finite(self, a):
        return K(bool(math.isfinite(_nf(a))))

    def is_inf(self, a):
        return bool(math.isinf(_nf(a)))

    def all(self, conds):
        r = K(True)
        for c in conds:
            r = r & c
        return r

    def any(self, conds):
        r = K(False)
        for c in conds:
            r = r | c
        return r

    def count_le(self, conds, k):
        ks = [_k(c).v for c in conds]
        sure = sum(1 for v in ks if v is True)
        maybe = sum(1 for v in ks if v is None)
        return K(True) if sure + maybe <= k else (K(False) if sure > k else K(None))

    def count_ge(self, conds, k):
        ks = [_k(c).v for c in conds]
        sure = sum(1 for v in ks if v is True)
        maybe = sum(1 for v in ks if v is None)
        return K(True) if sure >= k else (K(False) if sure + maybe < k else K(None))

    def eq_arr(self, a, b, tol=1e-6):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return K(False)
        return self.all([self.eq(x, y, tol) for x, y in zip(a.reshape(-1), b.reshape(-1))])

    def check(self, cond, label):
        self.reached += 1
        c = _k(cond)
        if c.v is False:
            self.failed.append(label)

    def observe(self, name, v):
        self.observed.append((name, v))

    def float_(self, v):
        return float(v)

    def tanh(self, v):
        return math.tanh(v)

    def exp(self, v):
        return math.exp(v)

    def log(self, v):
        return math.log(v)

    def sqrt(self, v):
        return math.sqrt(v) if v >= 0 else math.nan


def _nf(x):
    x = np.asarray(x)
    return float(x.reshape(-1)[0]) if x.size == 1 else float(x)
