"""Transcendental functions as generators with (true) axioms."""
from __future__ import annotations

import math
from fractions import Fraction

import mpmath
import z3

from .core import ALL, INF, NAN, NEG, NINF, POS, S0, S1, W, ZERO, Poly, Sym, gsym, Unsupported


def _key(s: Sym):
    return (s.num.key(), tuple((p.uid, e) for p, e in s.den))


def _mono(eng, g, h, z1=None):
    """strict monotonicity (increasing) of a unary function"""
    a, b = g.info["args"][0], h.info["args"][0]
    x, y = eng.z_gen(g.id), eng.z_gen(h.id)
    lt = eng.z_sign(a - b, NEG)
    eq = eng.z_sign(a - b, ZERO)
    return [lt == (x < y), eq == (x == y)]


def _mono1(eng, g, h, z1=None):
    """strictly increasing and 1-Lipschitz"""
    a, b = g.info["args"][0], h.info["args"][0]
    d = gsym(g) - gsym(h)
    up = eng.z_sign(d - (a - b), NEG | ZERO)
    dn = eng.z_sign(d - (a - b), POS | ZERO)
    return _mono(eng, g, h) + [z3.If(eng.z_sign(a - b, POS), up, dn)]


def _close_poly(a, b):
    if a is b:
        return True
    if len(a.t) != len(b.t):
        return False
    big = max((abs(c) for c in a.t.values()), default=Fraction(0))
    for m, c in a.t.items():
        d = b.t.get(m)
        if d is None or abs(c - d) > big / 10**11:
            return False
    return True


def _close(a, b):
    """equal up to rounding of the float constants in the code (a different evaluation order of the same formula)"""
    if len(a.den) != len(b.den) or not _close_poly(a.num, b.num):
        return False
    return all(e == f and _close_poly(p, q) for (p, e), (q, f) in zip(a.den, b.den))


def _uf(name, args, fn, axioms, pair, sign):
    key = ("uf", name) + tuple(_key(a) for a in args)
    reg = W.__dict__.setdefault("_ufreg", {}).setdefault(name, {})
    if key not in reg:
        for h in reg.values():
            if all(_close(a, b) for a, b in zip(args, h.info["args"])):
                reg[key] = h
                break
    if key in reg:
        return reg[key]
    g = W.gen(key, "uf", f"{name}#{len(W.gens)}", args[0], sign,
              info={"name": name, "args": list(args), "fn": fn, "axioms": axioms, "pair": pair})
    reg[key] = g
    return g


def _exp_ax(eng, g):
    e = eng.z_gen(g.id)
    a = g.info["args"][0]
    d = Sym(Poly({(g.id,): Fraction(1)})) - 1 - a
    return [e > 0, eng.z_sign(a, POS) == (e > 1), eng.z_sign(a, ZERO) == (e == 1), eng.z_sign(d, POS | ZERO)]


def _log_ax(eng, g):
    e = eng.z_gen(g.id)
    a = g.info["args"][0]
    d = a - 1 - Sym(Poly({(g.id,): Fraction(1)}))
    return [eng.z_sign(a - 1, POS) == (e > 0), eng.z_sign(a - 1, ZERO) == (e == 0), eng.z_sign(d, POS | ZERO)]


def _tanh_ax(eng, g):
    t = eng.z_gen(g.id)
    a = g.info["args"][0]
    d = a - Sym(Poly({(g.id,): Fraction(1)}))
    return [t < 1, t > -1, eng.z_sign(a, POS) == (t > 0), eng.z_sign(a, ZERO) == (t == 0),
            z3.Implies(t > 0, eng.z_sign(d, POS)), z3.Implies(t < 0, eng.z_sign(d, NEG))]


def _atan_ax(eng, g):
    t = eng.z_gen(g.id)
    a = g.info["args"][0]
    return [t < z3.RealVal("1571/1000"), t > z3.RealVal("-1571/1000"),
            eng.z_sign(a, POS) == (t > 0), eng.z_sign(a, ZERO) == (t == 0)]


def _no_input(p: Poly):
    for m in p.t:
        for gid in m:
            g = W.gens[gid]
            if g.kind == "sqrt":
                if not _no_input(g.arg):
                    return False
            elif g.kind != "uf" or not all(_no_input(a.num) and all(_no_input(q) for q, _ in a.den) for a in g.info["args"]):
                return False
    return True


def _constant(eng, s: Sym) -> Sym:
    """an expression of constants and radicals of constants is replaced by its value"""
    if s.sp or s.is_const() or not _no_input(s.num) or not all(_no_input(q) for q, _ in s.den):
        return s
    return Sym.of(eng.eval_sym(s)[0])


def apply(eng, name, s: Sym) -> Sym:
    if s.sp == "nan":
        return NAN
    s = _constant(eng, s)
    if name == "exp":
        if s.sp:
            return INF if s.sp == "inf" else S0
        if s.is_const():
            c = s.num.const()
            return S1 if c == 0 else Sym.of(math.exp(c))
        if not s.den and len(s.num.t) == 1:
            (m, c), = s.num.t.items()
            if c == 1 and len(m) == 1 and W.gens[m[0]].kind == "uf" and W.gens[m[0]].info["name"] == "log":
                return W.gens[m[0]].info["args"][0]
        g = _uf("exp", [s], mpmath.exp, _exp_ax, _mono, POS)
        return gsym(g)
    if name == "log":
        if s.sp:
            return INF if s.sp == "inf" else NAN
        if s.is_const():
            c = s.num.const()
            if c < 0:
                return NAN
            if c == 0:
                return NINF
            return S0 if c == 1 else Sym.of(math.log(c))
        if eng.test(s, NEG):
            return NAN
        if eng.test(s, ZERO):
            return NINF
        if s.den and s.num.is_const():
            return -apply(eng, name, S1 / s)  # log(1/x) = -log(x)
        if not s.den and len(s.num.t) == 1:
            (m, c), = s.num.t.items()
            if c == 1 and len(m) == 1 and W.gens[m[0]].kind == "uf" and W.gens[m[0]].info["name"] == "exp":
                return W.gens[m[0]].info["args"][0]
        g = _uf("log", [s], mpmath.log, _log_ax, _mono, ALL)
        return gsym(g)
    if name in ("tanh", "arctan"):
        if s.sp:
            v = S1 if name == "tanh" else Sym.of(math.pi / 2)
            return v if s.sp == "inf" else -v
        if s.is_const():
            return Sym.of(getattr(math, "tanh" if name == "tanh" else "atan")(s.num.const()))
        from .core import _lead

        if s.num.t[_lead(s.num.t)] < 0:
            return -apply(eng, name, -s)
        if name == "tanh":
            return gsym(_uf("tanh", [s], mpmath.tanh, _tanh_ax, _mono1, ALL))
        return gsym(_uf("arctan", [s], mpmath.atan, _atan_ax, _mono1, ALL))
    raise Unsupported(f"function {name}")


def monotone_uf(eng, name, s: Sym, fn, lo, hi) -> Sym:
    """a strictly increasing function with values in [lo, hi] (e.g. a cdf)"""

    def ax(e, g):
        t = e.z_gen(g.id)
        return [t >= z3.RealVal(str(Fraction(lo))), t <= z3.RealVal(str(Fraction(hi)))]

    s = _constant(eng, s)
    if s.is_finite_const():
        return Sym.of(float(fn(float(s.num.const()))))
    if s.sp:
        if s.sp == "nan":
            return NAN
        return Sym.of(hi if s.sp == "inf" else lo)
    return gsym(_uf(name, [s], lambda v: mpmath.mpf(float(fn(float(v)))), ax, _mono,
                    POS | ZERO if lo >= 0 else ALL))


def nint(eng, s: Sym) -> Sym:
    """the nearest integer, abstracted: within one half, non-decreasing"""

    def ax(e, g):
        d = gsym(g) - s
        h = Fraction(1, 2)
        return [e.z_sign(d - h, NEG | ZERO), e.z_sign(d + h, POS | ZERO)]

    def pair(e, g, h, z1=None):
        a, b = g.info["args"][0], h.info["args"][0]
        x, y = e.z_gen(g.id), e.z_gen(h.id)
        return [z3.Implies(e.z_sign(a - b, NEG | ZERO), x <= y), z3.Implies(e.z_sign(a - b, POS | ZERO), x >= y)]

    return gsym(_uf("nint", [s], mpmath.nint, ax, pair, ALL))


def near(eng, s: Sym, bits) -> Sym:
    """conversion to a shorter floating-point format, abstracted: within half a unit in the last place, non-decreasing"""
    import numpy as np

    dt = {24: np.float32, 11: np.float16}[bits]
    u = Fraction(1, 2**bits)

    def ax(e, g):
        r = gsym(g)
        p, q = s * (1 + u), s * (1 - u)
        up = z3.And(e.z_sign(r - p, NEG | ZERO), e.z_sign(r - q, POS | ZERO))
        dn = z3.And(e.z_sign(r - p, POS | ZERO), e.z_sign(r - q, NEG | ZERO))
        return [z3.If(e.z_sign(s, POS | ZERO), up, dn)]

    def pair(e, g, h, z1=None):
        a, b = g.info["args"][0], h.info["args"][0]
        x, y = e.z_gen(g.id), e.z_gen(h.id)
        return [z3.Implies(e.z_sign(a - b, NEG | ZERO), x <= y), z3.Implies(e.z_sign(a - b, POS | ZERO), x >= y)]

    return gsym(_uf(f"float{bits}", [s], lambda v: mpmath.mpf(float(dt(float(v)))), ax, pair, ALL))


def _pow_ax(eng, g):
    p = eng.z_gen(g.id)
    b, e = g.info["args"]
    b1p, b1z = eng.z_sign(b - 1, POS), eng.z_sign(b - 1, ZERO)
    ep, ez, en = eng.z_sign(e, POS), eng.z_sign(e, ZERO), eng.z_sign(e, NEG)
    out = [p > 0, z3.Implies(z3.Or(b1z, ez), p == 1),
           z3.Implies(z3.And(b1p, ep), p > 1), z3.Implies(z3.And(b1p, en), p < 1),
           z3.Implies(z3.And(z3.Not(b1p), z3.Not(b1z), ep), p < 1),
           z3.Implies(z3.And(z3.Not(b1p), z3.Not(b1z), en), p > 1)]
    # Bernoulli: b^e >= 1 + e (b-1) for e>=1 or e<=0 ; <= for 0<=e<=1
    d = Sym(Poly({(g.id,): Fraction(1)})) - 1 - e * (b - 1)
    e1 = eng.z_sign(e - 1, POS | ZERO)
    out += [z3.Implies(z3.Or(e1, z3.Not(ep)), eng.z_sign(d, POS | ZERO)),
            z3.Implies(z3.And(ep, eng.z_sign(e - 1, NEG | ZERO)), eng.z_sign(d, NEG | ZERO))]
    return out


def _pow_pair(eng, g, h):
    p, q = eng.z_gen(g.id), eng.z_gen(h.id)
    (b, e), (c, f) = g.info["args"], h.info["args"]
    out = []
    if _key(e) == _key(f):
        lt, eq = eng.z_sign(b - c, NEG), eng.z_sign(b - c, ZERO)
        ep, en = eng.z_sign(e, POS), eng.z_sign(e, NEG)
        out += [z3.Implies(ep, z3.And(lt == (p < q), eq == (p == q))),
                z3.Implies(en, z3.And(lt == (p > q), eq == (p == q)))]
    if _key(b) == _key(c):
        lt, eq = eng.z_sign(e - f, NEG), eng.z_sign(e - f, ZERO)
        bp, bn = eng.z_sign(b - 1, POS), eng.z_sign(b - 1, NEG)
        out += [z3.Implies(bp, z3.And(lt == (p < q), eq == (p == q))),
                z3.Implies(bn, z3.And(lt == (p > q), eq == (p == q)))]
    return out


def _root_power(eng, b: Sym):
    """(a, s, k) with b = a * s**k, s > 0 the square of a square root, k a multiple of 1/2 and a number a > 0"""
    if len(b.num.t) != 1:
        return None
    (m, a), = b.num.t.items()
    cnt = {}
    for g in m:
        cnt[g] = cnt.get(g, 0) + 1
    for p, e in b.den:
        if len(p.t) != 1:
            return None
        (m, d), = p.t.items()
        for g in m:
            cnt[g] = cnt.get(g, 0) - e
        a /= d ** e
    roots = [g for g in cnt if W.gens[g].kind == "sqrt"]
    if len(roots) != 1 or a <= 0 or not eng.test(gsym(W.gens[roots[0]]), POS):
        return None
    r = roots[0]
    s = gsym(W.gens[r])
    k = Fraction(cnt.pop(r), 2)
    if cnt:  # sqrt(x) * x**2
        sq = s * s
        if len(cnt) != 1 or sq.den or len(sq.num.t) != 1:
            return None
        (m, d), = sq.num.t.items()
        (g, e), = cnt.items()
        if m != (g,) or d != 1:
            return None
        k += e
    return (a, s * s, k) if k else None


def _ratpow(a: Fraction, c: Fraction):
    return S1 if a == 1 else Sym.of(float(mpmath.power(mpmath.mpf(a.numerator) / a.denominator, mpmath.mpf(c.numerator) / c.denominator)))


def _monic(b: Sym):
    from .core import _lead

    lc = b.num.t[_lead(b.num.t)]
    return lc, (Poly({m: v / lc for m, v in b.num.t.items()}).key(), tuple((p.uid, e) for p, e in b.den))


def note_power(base: Sym, e: Fraction, res: Sym):
    """remember that res = base**e (for taking roots of it again)"""
    if res.num.t and not res.sp:
        lc, key = _monic(res)
        W._powers.setdefault(key, (base, Fraction(e), lc))


def _perfect_power(eng, b: Sym, c: Fraction):
    """b**c where b is (a multiple of) a power whose exponent times c is an integer or a half"""
    if b.den and b.num.is_const() and b.num.const() > 0 and not any((e * c).denominator != 1 for _, e in b.den):
        if all(eng.test(Sym(p), POS) for p, e in b.den):
            out = _ratpow(b.num.const(), c)
            for p, e in b.den:
                out = out * Sym(p) ** int(-e * c)
            return out
    lc, key = _monic(b)
    hit = W._powers.get(key)
    if hit is None or (2 * hit[1] * c).denominator != 1:
        return None
    base, k, lead = hit
    if lc / lead <= 0 or not eng.test(base, POS):
        return None
    return _ratpow(lc / lead, c) * base ** Sym(Poly({(): k * c}))


def power(eng, b: Sym, e: Sym) -> Sym:
    if b.sp or e.sp:
        if b.sp == "nan" or e.sp == "nan":
            return NAN
        if b.sp == "inf" and not e.sp:
            s = e.sign()
            return INF if s > 0 else (S1 if s == 0 else S0)
        raise Unsupported("pow with infinities")
    if b.is_const() and e.is_const():
        try:
            v = float(b.num.const()) ** float(e.num.const())
        except ZeroDivisionError:
            return INF
        return NAN if isinstance(v, complex) else Sym.of(v)
    if e.is_const():
        c = e.num.const()
        near = c.limit_denominator(12)
        if near != c and float(near) == float(c):  # 2/3 as a float means two thirds
            c, e = near, Sym(Poly({(): near}))
        if c.denominator == 1 and abs(c) <= 12:
            return b ** int(c)
        if not b.den and len(b.num.t) == 1:  # a multiple of a power
            (m, a), = b.num.t.items()
            if a > 0 and len(set(m)) == 1 and W.gens[m[0]].kind == "uf" and W.gens[m[0]].info["name"] == "pow":
                bb, ee = W.gens[m[0]].info["args"]
                return _ratpow(a, c) * bb ** (ee * len(m) * e)
        r = _root_power(eng, b)  # a multiple of a power of a square root
        if r is not None and (2 * r[2] * c).denominator == 1:
            a, base, k = r
            return _ratpow(a, c) * base ** Sym(Poly({(): k * c}))
        r = _perfect_power(eng, b, c)
        if r is not None:
            return r
        if c.denominator == 2 and abs(c.numerator) <= 7:
            r = b.sqrt() ** int(c.numerator)
            if abs(c.numerator) > 1:
                note_power(b, c, r)
            return r
    elif eng.test(e, ZERO):
        return S1
    if eng.test(b, NEG):
        return NAN
    if eng.test(b, ZERO):
        return S0 if eng.test(e, POS) else INF
    # simplifications
    if not b.den and len(b.num.t) == 1:
        (m, c), = b.num.t.items()
        if c == 1 and len(m) == 1 and W.gens[m[0]].kind == "uf" and W.gens[m[0]].info["name"] == "pow":
            bb, ee = W.gens[m[0]].info["args"]
            return bb ** (ee * e)
    if b.is_const() and b.num.const() == 1:
        return S1
    if e.is_const() and not b.den and len(b.num.t) == 1 and not b.is_const():
        (m, c), = b.num.t.items()
        if c > 0 and c != 1:
            mm = Sym(Poly({m: Fraction(1)}))
            if eng.test(mm, POS):
                return Sym.of(float(mpmath.power(mpmath.mpf(c.numerator) / c.denominator, mpmath.mpf(e.num.const().numerator) / e.num.const().denominator))) * (mm ** e)
    g = _uf("pow", [b, e], lambda x, y: mpmath.power(x, y), _pow_ax, _pow_pair, POS)
    # depth must cover both arguments
    return gsym(g)
