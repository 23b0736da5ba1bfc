"""Exact symbolic reals for executing numerical Python code symbolically.

A `Sym` is a rational function over "generators".  A generator is an input variable, a
square root of a polynomial, or the value of an uninterpreted (axiomatised) function.
Every comparison of Syms *forks*: the engine picks one outcome, records the atom
"polynomial has sign in {...}" in the path condition and schedules the other outcome.
"""
from __future__ import annotations

import math
from fractions import Fraction

import numpy as np

NEG, ZERO, POS = 1, 2, 4
ALL = 7


class Unsupported(BaseException):
    """The code under test did something the encoding does not model (inconclusive path).

    A BaseException so that `except Exception` in code under test cannot swallow it."""


class Infeasible(BaseException):
    """The current path was found to be infeasible (or assumed away)."""


class PathLimit(BaseException):
    pass


def to_fraction(x) -> Fraction:
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    f = float(x)
    if f.is_integer():
        return Fraction(int(f))
    # shortest decimal representation: within half an ulp of the float, monotone, and small
    return Fraction(repr(f))


# ----------------------------------------------------------------------------------------------
# generators
# ----------------------------------------------------------------------------------------------
class Gen:
    __slots__ = ("id", "kind", "name", "arg", "args", "lo", "strict", "z3", "depth", "info")

    def __init__(self, id, kind, name, arg=None, sign=ALL, depth=0, info=None):
        self.id = id
        self.kind = kind  # 'input' | 'sqrt' | 'uf' | 'def'
        self.name = name
        self.arg = arg  # Poly for sqrt, Sym for uf / def
        self.lo = sign  # static sign mask
        self.z3 = None
        self.depth = depth
        self.info = info


class World:
    """Hash-consing tables (global per process; reset per scenario)."""

    def __init__(self):
        self._ufreg = {}
        self._powers = {}
        self._uni_base = {}
        self._uni_crit = {}
        self._fiv = {}
        self.gens: list[Gen] = []
        self.by_key: dict = {}
        self.polys: dict = {}
        self.uid = 0
        self.sqrt_ids: dict[int, "Poly"] = {}
        self.order_tie = False  # equal computed values were ordered: rounding may order them otherwise

    def gen(self, key, kind, name, arg=None, sign=ALL, info=None) -> Gen:
        g = self.by_key.get(key)
        if g is None:
            depth = 0
            if isinstance(arg, Poly):
                depth = 1 + max([self.gens[i].depth for i in arg.gen_ids()] or [0])
            elif isinstance(arg, Sym):
                depth = 1 + max([self.gens[i].depth for i in arg.gen_ids()] or [0])
            g = Gen(len(self.gens), kind, name, arg, sign, depth, info)
            self.gens.append(g)
            self.by_key[key] = g
            if kind == "sqrt":
                self.sqrt_ids[g.id] = arg
        return g


W = World()


def reset_world():
    W.__init__()


# ----------------------------------------------------------------------------------------------
# polynomials
# ----------------------------------------------------------------------------------------------
class Poly:
    __slots__ = ("t", "_key", "_z3", "_sgn", "_prim", "uid", "_gids")

    def __init__(self, t):
        self.t = t
        self._key = None
        self._z3 = None
        self._sgn = None
        self._prim = None
        self.uid = None
        self._gids = None

    def key(self):
        if self._key is None:
            self._key = frozenset(self.t.items())
        return self._key

    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and () in t)

    def const(self):
        return self.t.get((), Fraction(0))

    def gen_ids(self):
        if self._gids is None:
            s = set()
            for m in self.t:
                s.update(m)
            self._gids = s
        return self._gids

    def degree(self):
        return max((len(m) for m in self.t), default=0)


PREC = 0  # > 0: constants longer than 2*PREC bits are rounded to PREC significant bits (iterative algorithms)


_coprime = getattr(Fraction, "_from_coprime_ints", None) or (lambda n, d: Fraction(n, d))
_fadd, _fmul, _fdiv = Fraction._add, Fraction._mul, Fraction._div


def rnd(c: Fraction) -> Fraction:
    n, d = c.numerator, c.denominator
    a, b = n.bit_length(), d.bit_length()
    if a + b <= PREC:
        return c
    k = PREC + b - a  # n/d * 2^k has about PREC bits
    if k < 0:
        return Fraction((n // (d << -k)) << -k)
    q = (n << k) // d
    z = (q & -q).bit_length() - 1 if q else 0
    if z >= k:
        return _coprime(q >> k, 1)
    return _coprime(q >> z, 1 << (k - z))


def _cst(s):
    """value of a finite constant, else None"""
    if s.sp is None and not s.den:
        t = s.num.t
        if not t:
            return F0
        if len(t) == 1:
            return t.get(())
    return None


def _mkc(c):
    return Sym(Poly({(): c})) if c else S0


def _radd(d, c):
    """sum of two coefficients, rounded; a sum that cancels to rounding noise is zero"""
    r = _fadd(d, c)
    if not r:
        return None
    n = r.numerator.bit_length() - r.denominator.bit_length() + PREC * 3 // 4
    if n < max(d.numerator.bit_length() - d.denominator.bit_length(), c.numerator.bit_length() - c.denominator.bit_length()) - 1:
        return None
    return rnd(r)


F0 = Fraction(0)
P0 = Poly({})
P1 = Poly({(): Fraction(1)})


def pconst(c):
    return Poly({(): c}) if c else P0


def padd(a: Poly, b: Poly) -> Poly:
    if not a.t:
        return b
    if not b.t:
        return a
    if len(a.t) < len(b.t):
        a, b = b, a
    t = dict(a.t)
    for m, c in b.t.items():
        d = t.get(m)
        if d is None:
            t[m] = c
        else:
            d = _radd(d, c) if PREC else d + c
            if d:
                t[m] = d
            else:
                del t[m]
    return Poly(t)


def pscale(a: Poly, c) -> Poly:
    if not c:
        return P0
    if c == 1:
        return a
    if PREC:
        return Poly({m: rnd(v * c) for m, v in a.t.items()})
    return Poly({m: v * c for m, v in a.t.items()})


def pneg(a):
    return Poly({m: -v for m, v in a.t.items()})


def psub(a, b):
    return padd(a, pneg(b))


MAX_TERMS = 60000


def pmul(a: Poly, b: Poly) -> Poly:
    if not a.t or not b.t:
        return P0
    if a.is_const():
        return pscale(b, a.const())
    if b.is_const():
        return pscale(a, b.const())
    if len(a.t) * len(b.t) > MAX_TERMS:
        raise Unsupported("polynomial too large")
    t: dict = {}
    sq = W.sqrt_ids
    red = bool(sq) and bool(a.gen_ids() & b.gen_ids() & sq.keys())
    extra = None
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = tuple(sorted(m1 + m2)) if m1 and m2 else (m1 or m2)
            c = c1 * c2
            if red:
                dup = None
                for i in range(len(m) - 1):
                    if m[i] == m[i + 1] and m[i] in sq:
                        dup = m[i]
                        break
                if dup is not None:
                    # replace every pair s*s by its argument
                    rest = []
                    prod = Poly({(): c})
                    i = 0
                    while i < len(m):
                        if i + 1 < len(m) and m[i] == m[i + 1] and m[i] in sq:
                            prod = pmul(prod, sq[m[i]])
                            i += 2
                        else:
                            rest.append(m[i])
                            i += 1
                    prod = pmul(prod, Poly({tuple(rest): Fraction(1)}))
                    extra = prod if extra is None else padd(extra, prod)
                    continue
            d = t.get(m)
            if d is None:
                t[m] = rnd(c) if PREC else c
            else:
                d = _radd(d, c) if PREC else d + c
                if d:
                    t[m] = d
                else:
                    del t[m]
    r = Poly(t)
    if extra is not None:
        r = padd(r, extra)
    return r


def ppow(a, n):
    r = P1
    for _ in range(n):
        r = pmul(r, a)
    return r


def _lead(t):
    # graded-lex leading monomial
    return max(t, key=lambda m: (len(m), m))


def mono_div(m, d):
    """m / d as monomials or None."""
    m = list(m)
    for x in d:
        try:
            m.remove(x)
        except ValueError:
            return None
    return tuple(m)


def pexactdiv(a: Poly, b: Poly):
    """Exact division in the free polynomial ring or None."""
    if b.is_const():
        return pscale(a, 1 / b.const())
    if not a.t:
        return P0
    if not b.gen_ids() <= a.gen_ids() or b.degree() > a.degree():
        return None
    # the variable-wise degrees must dominate
    lb = _lead(b.t)
    cb = b.t[lb]
    q: dict = {}
    r = dict(a.t)
    steps = 0
    while r:
        lr = _lead(r)
        m = mono_div(lr, lb)
        if m is None:
            return None
        steps += 1
        if steps > 400:
            return None
        c = r[lr] / cb
        q[m] = q.get(m, 0) + c
        for mb, vb in b.t.items():
            mm = tuple(sorted(m + mb))
            v = r.get(mm, 0) - c * vb
            if v:
                r[mm] = v
            else:
                r.pop(mm, None)
    return Poly(q)


def intern(p: Poly) -> Poly:
    k = p.key()
    q = W.polys.get(k)
    if q is None:
        W.uid += 1
        p.uid = W.uid
        W.polys[k] = p
        return p
    return q


def primitive(p: Poly):
    """p = c * q, q interned with integer coprime coefficients and positive leading coefficient."""
    if p._prim is None:
        lead = p.t[_lead(p.t)]
        num = 0
        den = 1
        for v in p.t.values():
            num = math.gcd(num, v.numerator)
            den = den * v.denominator // math.gcd(den, v.denominator)
        c = Fraction(num, den)
        if lead < 0:
            c = -c
        q = intern(pscale(p, 1 / c))
        p._prim = (c, q)
    return p._prim


def mono_content(p: Poly):
    """p = mono * q."""
    it = iter(p.t)
    common = next(it)
    if not common:
        return (), p
    for m in it:
        new = []
        rest = list(m)
        for x in common:
            if x in rest:
                rest.remove(x)
                new.append(x)
        common = tuple(new)
        if not common:
            return (), p
    return common, Poly({mono_div(m, common): c for m, c in p.t.items()})


def psqrt_exact(p: Poly):
    """polynomial square root (free ring) or None."""
    if not p.t:
        return P0
    lead = _lead(p.t)
    lc = p.t[lead]
    if lc < 0:
        return None
    rc = frac_sqrt(lc)
    if rc is None:
        return None
    if len(lead) % 2:
        return None
    half = []
    i = 0
    while i < len(lead):
        if i + 1 >= len(lead) or lead[i] != lead[i + 1]:
            return None
        half.append(lead[i])
        i += 2
    q = Poly({tuple(half): rc})
    r = psub(p, free_mul(q, q))
    lm = tuple(half)
    steps = 0
    while r.t:
        steps += 1
        if steps > 60:
            return None
        lr = _lead(r.t)
        m = mono_div(lr, lm)
        if m is None or (len(m), m) >= (len(lm), lm):
            return None
        term = Poly({m: r.t[lr] / (2 * rc)})
        r = psub(r, padd(free_mul(pscale(q, Fraction(2)), term), free_mul(term, term)))
        q = padd(q, term)
    return q


def free_mul(a, b):
    t: dict = {}
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = tuple(sorted(m1 + m2))
            v = t.get(m, 0) + c1 * c2
            if v:
                t[m] = v
            else:
                t.pop(m, None)
    return Poly(t)


def frac_sqrt(c: Fraction):
    if c < 0:
        return None
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
        return Fraction(n, d)
    return None


def _square_part(n: int):
    """largest s with s*s | n for small prime factors."""
    s = 1
    for q in (2, 3, 5, 7, 11, 13):
        while n % (q * q) == 0:
            n //= q * q
            s *= q
    r = math.isqrt(n)
    if r * r == n:
        return s * r, 1
    return s, n


# static sign information ------------------------------------------------------------------------
def static_sign(p: Poly) -> int:
    """Sound superset of the possible signs of p, from its shape alone."""
    if p._sgn is not None:
        return p._sgn
    if p.is_const():
        c = p.const()
        s = ZERO if c == 0 else (POS if c > 0 else NEG)
    else:
        s = _static_sign(p)
        if s == ALL:
            q = _static_sign(pneg(p))
            if q != ALL:
                s = (q & ZERO) | (POS if q & NEG else 0) | (NEG if q & POS else 0)
    p._sgn = s
    return s


def _mono_static(m):
    """sign mask of a monomial: POS, POS|ZERO or ALL/other"""
    sign = POS
    i = 0
    while i < len(m):
        j = i
        while j < len(m) and m[j] == m[i]:
            j += 1
        g = W.gens[m[i]].lo
        e = j - i
        if e % 2 == 0:
            g = POS | ZERO if g & ZERO else POS
        # combine
        out = 0
        for a in (NEG, ZERO, POS):
            if not sign & a:
                continue
            for b in (NEG, ZERO, POS):
                if not g & b:
                    continue
                if a == ZERO or b == ZERO:
                    out |= ZERO
                elif a == b:
                    out |= POS
                else:
                    out |= NEG
        sign = out
        i = j
    return sign


def _static_sign(p):
    any_pos = False
    ok = True
    for m, c in p.t.items():
        s = _mono_static(m)
        if c < 0:
            s = (s & ZERO) | (POS if s & NEG else 0) | (NEG if s & POS else 0)
        if s & NEG:
            ok = False
            break
        if s == POS:
            any_pos = True
    if ok:
        return POS if any_pos else POS | ZERO
    # quadratic form certificate (in any generators, treating them as free reals)
    if p.degree() == 2 and len(p.gen_ids()) <= 16:
        r = _psd_quadratic(p)
        if r:
            return r
    if len(p.t) <= 40:
        q = psqrt_exact(p)
        if q is not None:
            return POS | ZERO
    return ALL


def _psd_quadratic(p: Poly):
    """sign mask POS|ZERO / POS if the (possibly inhomogeneous) quadratic is PSD, else 0."""
    ids = sorted(p.gen_ids())
    pos = {g: i + 1 for i, g in enumerate(ids)}
    n = len(ids) + 1
    A = [[Fraction(0)] * n for _ in range(n)]
    for m, c in p.t.items():
        if len(m) == 0:
            A[0][0] += c
        elif len(m) == 1:
            A[0][pos[m[0]]] += c / 2
            A[pos[m[0]]][0] += c / 2
        else:
            i, j = pos[m[0]], pos[m[1]]
            if i == j:
                A[i][i] += c
            else:
                A[i][j] += c / 2
                A[j][i] += c / 2
    # LDL^T with pivots from the last to the first; pivot 0 must have a zero row
    for k in range(n - 1, -1, -1):
        d = A[k][k]
        if d < 0:
            return 0
        if d == 0:
            if any(A[k][j] != 0 for j in range(k)):
                return 0
            continue
        for i in range(k):
            f = A[i][k] / d
            if f:
                for j in range(k):
                    A[i][j] -= f * A[k][j]
        if k == 0:
            return POS  # strictly positive remainder for the constant 1
    return POS | ZERO


# ----------------------------------------------------------------------------------------------
# Sym
# ----------------------------------------------------------------------------------------------
ENGINE = None  # set by the engine


def set_engine(e):
    global ENGINE
    ENGINE = e


def _flip(mask):
    return (mask & ZERO) | (POS if mask & NEG else 0) | (NEG if mask & POS else 0)


class Sym:
    """num / prod(den factors); or special 'nan', 'inf', '-inf'."""

    __slots__ = ("num", "den", "sp", "_gids")
    __array_priority__ = 1000.0

    def __init__(self, num, den=(), sp=None):
        self.num = num
        self.den = den  # tuple of (interned primitive Poly, exp)
        self.sp = sp
        self._gids = None

    # -- constructors
    @staticmethod
    def of(x) -> "Sym":
        if isinstance(x, Sym):
            return x
        if isinstance(x, np.ndarray):
            if x.ndim == 0:
                return Sym.of(x.item())
            raise Unsupported(f"array where scalar expected {x.shape}")
        if isinstance(x, (float, np.floating)):
            if x != x:
                return NAN
            if x == math.inf:
                return INF
            if x == -math.inf:
                return NINF
        elif isinstance(x, (complex, np.complexfloating)):
            if x.imag == 0:
                return Sym.of(x.real)
            raise Unsupported("complex")
        elif not isinstance(x, (int, np.integer, bool, np.bool_, Fraction)):
            raise TypeError(f"cannot make a Sym from {type(x)}")
        return Sym(pconst(to_fraction(x)))

    # -- queries
    def is_const(self):
        return self.sp is not None or (not self.den and self.num.is_const())

    def is_finite_const(self):
        return self.sp is None and not self.den and self.num.is_const()

    def fraction(self):
        return self.num.const()

    def to_float(self):
        if self.sp is not None:
            return {"nan": math.nan, "inf": math.inf, "-inf": -math.inf}[self.sp]
        if not self.is_const():
            raise Unsupported("float() of a symbolic value")
        return float(self.num.const())

    def gen_ids(self):
        if self._gids is None:
            s = set(self.num.gen_ids())
            for p, _ in self.den:
                s |= p.gen_ids()
            self._gids = s
        return self._gids

    def __repr__(self):
        if self.sp:
            return f"Sym({self.sp})"
        if self.is_const():
            return f"Sym({float(self.num.const())!r})"
        return f"Sym<{poly_str(self.num)}{' / ' + '*'.join('(%s)^%d' % (poly_str(p), e) for p, e in self.den) if self.den else ''}>"

    def __float__(self):
        return self.to_float()

    def __int__(self):
        if self.is_finite_const():
            return int(self.num.const())
        raise Unsupported("int() of a symbolic value")

    def __index__(self):
        if self.is_finite_const() and self.num.const().denominator == 1:
            return int(self.num.const())
        raise TypeError("only integers can be used as an index")

    def __hash__(self):
        if self.sp:
            return hash(self.sp)
        if self.is_const():
            return hash(self.num.const())
        return hash((self.num.key(), tuple((p.uid, e) for p, e in self.den)))

    def __bool__(self):
        return bool(self != 0)

    # -- arithmetic
    def __neg__(self):
        if self.sp:
            return {"nan": NAN, "inf": NINF, "-inf": INF}[self.sp]
        return Sym(pneg(self.num), self.den)

    def __pos__(self):
        return self

    def __add__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if PREC:
            a = _cst(self)
            if a is not None:
                b = _cst(o)
                if b is not None:
                    if not a:
                        return o
                    if not b:
                        return self
                    return _mkc(_radd(a, b))
        if self.sp or o.sp:
            a, b = self.sp, o.sp
            if a == "nan" or b == "nan":
                return NAN
            if a and b:
                return self if a == b else NAN
            return self if a else o
        if self.den == o.den:
            return _norm(padd(self.num, o.num), self.den)
        if not o.num.t:
            return self
        if not self.num.t:
            return o
        # common denominator
        d1 = dict((p.uid, (p, e)) for p, e in self.den)
        d2 = dict((p.uid, (p, e)) for p, e in o.den)
        n1, n2 = self.num, o.num
        out = []
        for uid in sorted(set(d1) | set(d2)):
            p, e1 = d1.get(uid, (None, 0))
            q, e2 = d2.get(uid, (None, 0))
            p = p or q
            e = max(e1, e2)
            if e > e1:
                n1 = pmul(n1, ppow(p, e - e1))
            if e > e2:
                n2 = pmul(n2, ppow(p, e - e2))
            out.append((p, e))
        return _norm(padd(n1, n2), tuple(out))

    __radd__ = __add__

    def __sub__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        return self + (-o)

    def __rsub__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        return o + (-self)

    def __mul__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if PREC:
            a = _cst(self)
            if a is not None:
                b = _cst(o)
                if b is not None:
                    return _mkc(rnd(_fmul(a, b)))
        if self.sp or o.sp:
            if self.sp == "nan" or o.sp == "nan":
                return NAN
            s = self.sign() * o.sign()
            return NAN if s == 0 else (INF if s > 0 else NINF)
        if not self.num.t or not o.num.t:
            return S0
        if not self.den and not o.den:
            return Sym(pmul(self.num, o.num))
        n1, n2 = self.num, o.num
        d1, d2 = dict((p.uid, [p, e]) for p, e in self.den), dict((p.uid, [p, e]) for p, e in o.den)
        n1 = _cancel(n1, d2)
        n2 = _cancel(n2, d1)
        for uid, (p, e) in d2.items():
            if uid in d1:
                d1[uid][1] += e
            else:
                d1[uid] = [p, e]
        den = tuple((p, e) for _, (p, e) in sorted(d1.items()) if e)
        return Sym(pmul(n1, n2), den) if not W.sqrt_ids else _norm(pmul(n1, n2), den)

    __rmul__ = __mul__

    def inv_nonzero(self):
        """1/self given that self is known to be non-zero."""
        num = P1
        for p, e in self.den:
            num = pmul(num, ppow(p, e))
        n = self.num
        if n.is_const():
            return Sym(pscale(num, 1 / n.const()))
        c, q = primitive(n)
        mono, rest = mono_content(q)
        den: dict = {}
        res = Sym(pscale(num, 1 / c))
        for g in mono:
            if g in W.sqrt_ids:
                # 1/s = s / arg
                res = res * Sym(Poly({(g,): Fraction(1)})) * _recip_poly(W.sqrt_ids[g])
            else:
                res = res * _recip_poly(Poly({(g,): Fraction(1)}))
        if mono:
            if not rest.is_const():
                res = res * _recip_poly(rest)
            else:
                res = Sym(pscale(res.num, 1 / rest.const()), res.den)
        else:
            res = res * _recip_poly(q)
        return res

    def __truediv__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if PREC:
            b = _cst(o)
            if b:
                a = _cst(self)
                if a is not None:
                    return _mkc(rnd(_fdiv(a, b)))
        if self.sp or o.sp:
            if self.sp == "nan" or o.sp == "nan" or (self.sp and o.sp):
                return NAN
            if o.sp:
                return S0
            s = o.sign()
            if s == 0:
                return self  # IEEE: inf / +0
            return self if s > 0 else -self
        if o.is_const():
            c = o.num.const()
            if c == 0:
                s = self.sign()
                return NAN if s == 0 else (INF if s > 0 else NINF)
            return Sym(pscale(self.num, 1 / c), self.den)
        if ENGINE.is_zero(o):
            s = self.sign()
            return NAN if s == 0 else (INF if s > 0 else NINF)
        return self * o.inv_nonzero()

    def __rtruediv__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        return o / self

    def __pow__(self, e):
        if isinstance(e, Sym) and not e.is_const():
            return ENGINE.pow(self, e)
        e = Sym.of(e)
        if e.sp:
            raise Unsupported("pow with non-finite exponent")
        e = e.num.const()
        if e.denominator == 1:
            k = int(e)
            if k == 0:
                return S1
            if self.sp:
                if self.sp == "nan":
                    return NAN
                if k < 0:
                    return S0
                return INF if (k % 2 == 0 or self.sp == "inf") else NINF
            if abs(k) > 12:
                return ENGINE.pow(self, Sym.of(e))
            r = self
            for _ in range(abs(k) - 1):
                r = r * self
            if abs(k) > 2 and len(self.num.t) > 1:
                from .ufs import note_power

                note_power(self, Fraction(abs(k)), r)
            return r if k > 0 else S1 / r
        return ENGINE.pow(self, Sym.of(e))

    def __rpow__(self, b):
        return ENGINE.pow(Sym.of(b), self)

    def __abs__(self):
        if self.sp:
            return NAN if self.sp == "nan" else INF
        return self if self.sign_ge0() else -self

    def __floordiv__(self, o):
        return (self / o).floor()

    def __rfloordiv__(self, o):
        return (Sym.of(o) / self).floor()

    def __mod__(self, o):
        return self - (self // o) * o

    def __rmod__(self, o):
        return Sym.of(o) % self

    # -- signs / comparisons (fork)
    def sign(self):
        """-1, 0, 1 (forks up to two times)."""
        if self.sp:
            if self.sp == "nan":
                raise Unsupported("sign of nan")
            return 1 if self.sp == "inf" else -1
        if ENGINE.test(self, ZERO):
            return 0
        return 1 if ENGINE.test(self, POS) else -1

    def sign_ge0(self):
        if self.sp:
            return self.sp == "inf"
        return ENGINE.test(self, POS | ZERO)

    def _cmp(self, o, mask):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if self.sp or o.sp:
            if self.sp == "nan" or o.sp == "nan":
                return np.False_
            r1 = {"inf": 1, "-inf": -1, None: 0}[self.sp]
            r2 = {"inf": 1, "-inf": -1, None: 0}[o.sp]
            d = (r1 > r2) - (r1 < r2)
            return np.bool_(mask & (POS if d > 0 else NEG if d < 0 else ZERO))
        if not o.num.t:
            return np.bool_(ENGINE.test(self, mask))
        return np.bool_(ENGINE.test(self - o, mask))

    def __lt__(self, o):
        return self._cmp(o, NEG)

    def __le__(self, o):
        return self._cmp(o, NEG | ZERO)

    def __gt__(self, o):
        return self._cmp(o, POS)

    def __ge__(self, o):
        return self._cmp(o, POS | ZERO)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, list, dict)):
            return False
        return self._cmp(o, ZERO)

    def __ne__(self, o):
        if o is None or isinstance(o, (str, tuple, list, dict)):
            return True
        r = self._cmp(o, ZERO)
        return r if r is NotImplemented else not r

    # -- functions (names used by numpy's object ufuncs)
    def sqrt(self):
        if self.sp:
            return self if self.sp != "-inf" else NAN
        return ENGINE.sqrt(self)

    def exp(self):
        return ENGINE.uf("exp", self)

    def log(self):
        return ENGINE.uf("log", self)

    def log1p(self):
        return ENGINE.uf("log", self + 1)

    def expm1(self):
        return ENGINE.uf("exp", self) - 1

    def log2(self):
        return ENGINE.uf("log", self) / Sym.of(math.log(2))

    def log10(self):
        return ENGINE.uf("log", self) / Sym.of(math.log(10))

    def tanh(self):
        return ENGINE.uf("tanh", self)

    def arctan(self):
        return ENGINE.uf("arctan", self)

    def floor(self):
        return ENGINE.floor(self)

    def ceil(self):
        return -ENGINE.floor(-self)

    def trunc(self):
        return ENGINE.floor(self) if self.sign_ge0() else -ENGINE.floor(-self)

    __floor__ = floor
    __ceil__ = ceil
    __trunc__ = trunc

    def rint(self):
        return ENGINE.rint(self)

    def __round__(self, n=0):
        k = 10 ** (n or 0)
        return (self * k).rint() / k

    def square(self):
        return self * self

    def reciprocal(self):
        return S1 / self

    def conjugate(self):
        return self

    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return S0

    def sign_value(self):
        return Sym.of(self.sign())

    def isnan(self):
        return self.sp == "nan"

    def isfinite(self):
        return self.sp is None

    def isinf(self):
        return self.sp in ("inf", "-inf")

    # array-scalar like API (numpy float64 scalars have these)
    shape = ()
    ndim = 0
    size = 1

    @property
    def dtype(self):
        return np.dtype(float)

    @property
    def T(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def astype(self, dt, **kw):
        from . import arrays

        return arrays.wrap(np.array(self, dtype=object)).astype(dt)[()]

    def flatten(self):
        from . import arrays

        return arrays.mk([self])

    ravel = flatten

    def reshape(self, *s):
        return self.flatten().reshape(*s)

    def mean(self, *a, **k):
        return self

    sum = max = min = mean

    def all(self, *a, **k):
        return bool(self)

    any = all

    def round(self, n=0):
        return self.__round__(n)

    def dot(self, o):
        return self * o

    def __matmul__(self, o):
        raise ValueError("matmul: Input operand 0 does not have enough dimensions")

    __rmatmul__ = __matmul__

    def __len__(self):
        raise TypeError("object of type 'float' has no len()")

    def __format__(self, spec):
        return repr(self) if not self.is_const() else format(self.to_float(), spec)

    def __reduce__(self):
        return (_unpickle_sym, (repr(self),))

    def __getitem__(self, i):
        if isinstance(i, (bool, np.bool_)) or (isinstance(i, np.ndarray) and i.dtype == bool and i.ndim == 0):
            from .arrays import mk

            return mk([self] if i else [])
        if isinstance(i, tuple) and not i or i is Ellipsis:
            return self
        raise IndexError("invalid index to scalar variable.")


def _unpickle_sym(r):
    return r


def _recip_poly(p: Poly) -> Sym:
    """1/p for a non-zero poly (assumed known non-zero)."""
    c, q = primitive(p)
    r = psqrt_exact(q) if 1 < len(q.t) <= 30 else None
    if r is not None:
        c2, q2 = primitive(r)
        return Sym(pconst(1 / (c * c2 * c2)), ((q2, 2),))
    return Sym(pconst(1 / c), ((q, 1),))


def _coerce(o):
    if isinstance(o, Sym):
        return o
    if isinstance(o, (int, float, np.integer, np.floating, bool, np.bool_, Fraction)):
        return Sym.of(o)
    if isinstance(o, np.ndarray) and o.ndim == 0:
        return Sym.of(o.item())
    return NotImplemented


def _install_array_ops():
    import operator

    names = {
        "__add__": operator.add, "__sub__": operator.sub, "__mul__": operator.mul,
        "__truediv__": operator.truediv, "__pow__": operator.pow, "__floordiv__": operator.floordiv,
        "__mod__": operator.mod,
        "__lt__": operator.lt, "__le__": operator.le, "__gt__": operator.gt, "__ge__": operator.ge,
        "__eq__": operator.eq, "__ne__": operator.ne,
    }

    def make(name, op, reflected):
        raw = getattr(Sym, name)

        def f(self, o):
            if isinstance(o, np.ndarray) and o.ndim > 0:
                from . import arrays

                if isinstance(o, arrays.SymArray):
                    return NotImplemented
                a = arrays.wrap(o)
                return op(a, self) if reflected else op(self, a)
            return raw(self, o)

        f.__name__ = name
        setattr(Sym, name, f)

    for n, op in names.items():
        make(n, op, False)
        if n in ("__lt__", "__le__", "__gt__", "__ge__", "__eq__", "__ne__"):
            continue
        make("__r" + n[2:], op, True)


def _cancel(num: Poly, den: dict):
    """cancel factors of den (uid -> [poly, exp]) against num, in place on den."""
    for uid, pe in list(den.items()):
        while pe[1] > 0:
            q = pexactdiv(num, pe[0])
            if q is None:
                break
            num = q
            pe[1] -= 1
        if pe[1] == 0:
            del den[uid]
    return num


def _norm(num: Poly, den):
    if not num.t:
        return S0
    if not den:
        return Sym(num)
    d = dict((p.uid, [p, e]) for p, e in den)
    num = _cancel(num, d)
    return Sym(num, tuple((p, e) for _, (p, e) in sorted(d.items())))


NAN = Sym(P0, (), "nan")
INF = Sym(P0, (), "inf")
NINF = Sym(P0, (), "-inf")
S0 = Sym(P0)
S1 = Sym(P1)


def gsym(g: Gen) -> Sym:
    return Sym(Poly({(g.id,): Fraction(1)}))


def poly_str(p: Poly, limit=12):
    out = []
    for i, (m, c) in enumerate(sorted(p.t.items(), key=lambda kv: (-len(kv[0]), kv[0]))):
        if i >= limit:
            out.append(f"...[{len(p.t)} terms]")
            break
        cs = str(c) if c.denominator < 10**6 else repr(float(c))
        out.append("*".join([cs] + [W.gens[g].name for g in m]))
    return " + ".join(out) or "0"


_install_array_ops()
