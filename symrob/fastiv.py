"""Interval arithmetic with outward rounded doubles: natural and mean value enclosures of generator polynomials over a box of the variable."""
import math

import mpmath

from . import core

INF = math.inf
nx = math.nextafter


class Give(Exception):
    pass


def add(a, b):
    return nx(a[0] + b[0], -INF), nx(a[1] + b[1], INF)


def sub(a, b):
    return nx(a[0] - b[1], -INF), nx(a[1] - b[0], INF)


def mul(a, b):
    p, q, r, s = a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1]
    lo, hi = min(p, q, r, s), max(p, q, r, s)
    if lo != lo or hi != hi:
        raise Give()
    return nx(lo, -INF), nx(hi, INF)


def inv(a):
    if a[0] <= 0 <= a[1]:
        raise Give()
    return nx(1 / a[1], -INF), nx(1 / a[0], INF)


def power(a, k):
    if k == 1:
        return a
    if k == 2:
        p, q = a[0] * a[0], a[1] * a[1]
        lo = 0.0 if a[0] <= 0 <= a[1] else nx(min(p, q), 0.0)
        return lo, nx(max(p, q), INF)
    r = power(a, k // 2)
    r = power(r, 2)
    return mul(r, a) if k % 2 else r


def enc(fr):
    f = float(fr)
    return (f, f) if fr == f else (nx(f, -INF), nx(f, INF))


def terms(q):
    c = core.W.__dict__.setdefault("_fiv", {})
    r = c.get(q.uid)
    if r is None:
        r = []
        for m, k in q.t.items():
            fs, i = [], 0
            while i < len(m):
                j = i
                while j < len(m) and m[j] == m[i]:
                    j += 1
                fs.append((m[i], j - i))
                i = j
            r.append((enc(k), fs))
        c[q.uid] = r
    return r


class Box:
    """evaluation over one box, generators cached"""

    def __init__(self, lo, hi):
        self.box = (lo, hi)
        self.v = {}
        self.d = {}

    def poly(self, q):
        t = (0.0, 0.0)
        for c, fs in terms(q):
            for g, k in fs:
                c = mul(c, power(self.gen(g), k))
            t = add(t, c)
        return t

    def sym(self, s):
        if s.sp:
            raise Give()
        v = self.poly(s.num)
        for p, e in s.den:
            v = mul(v, inv(power(self.poly(p), e)))
        return v

    def gen(self, g):
        r = self.v.get(g)
        if r is None:
            r = self.v[g] = self._gen(g)
        return r

    def _gen(self, g):
        gen = core.W.gens[g]
        if gen.kind == "input":
            return self.box
        if gen.kind == "sqrt":
            a = self.poly(gen.arg)
            if a[1] < 0:
                raise Give()
            return nx(math.sqrt(max(a[0], 0.0)), 0.0), nx(math.sqrt(a[1]), INF)
        name, args = gen.info["name"], gen.info["args"]
        if len(args) > 2 or not all(b.is_finite_const() for b in args[1:]):
            raise Give()
        a = self.sym(args[0])
        if name == "log":
            if a[0] <= 0:
                raise Give()
            r = math.log(a[0]), math.log(a[1])
        elif name == "exp":
            if a[1] > 600:
                raise Give()
            r = math.exp(a[0]), math.exp(a[1])
        elif name == "tanh":
            r = math.tanh(a[0]), math.tanh(a[1])
        elif name == "arctan":
            r = math.atan(a[0]), math.atan(a[1])
        else:  # monotone in the first argument
            rest = [mpmath.mpf(float(b.num.const())) for b in args[1:]]
            if name == "pow" and a[0] <= 0:
                raise Give()
            r = [gen.info["fn"](mpmath.mpf(e), *rest) for e in a]
            if any(isinstance(e, mpmath.mpc) or not mpmath.isfinite(e) for e in r):
                raise Give()
            r = float(min(r)), float(max(r))
            pad = 1e-12 * (1 + abs(r[0]) + abs(r[1]))
            return r[0] - pad, r[1] + pad
        pad = 1e-15 * (abs(r[0]) + abs(r[1])) + 1e-300
        return r[0] - pad, r[1] + pad

    def dpoly(self, q):
        t = (0.0, 0.0)
        for c, fs in terms(q):
            for g, k in fs:
                d = self.dgen(g)
                if d == (0.0, 0.0):
                    continue
                v = mul(c, mul((float(k), float(k)), d))
                for h, e in fs:
                    e -= h == g
                    if e:
                        v = mul(v, power(self.gen(h), e))
                t = add(t, v)
        return t

    def dsym(self, s):
        n, d = self.poly(s.num), self.dpoly(s.num)
        den, rel = (1.0, 1.0), (0.0, 0.0)
        for p, e in s.den:
            v = self.poly(p)
            den = mul(den, power(v, e))
            rel = add(rel, mul((float(e), float(e)), mul(self.dpoly(p), inv(v))))
        return mul(sub(d, mul(n, rel)), inv(den))

    def dgen(self, g):
        r = self.d.get(g)
        if r is None:
            r = self.d[g] = self._dgen(g)
        return r

    def _dgen(self, g):
        gen = core.W.gens[g]
        if gen.kind == "input":
            return 1.0, 1.0
        x = self.gen(g)
        if gen.kind == "sqrt":
            if not gen.arg.gen_ids():
                return 0.0, 0.0
            return mul(self.dpoly(gen.arg), inv(mul((2.0, 2.0), x)))
        name, args = gen.info["name"], gen.info["args"]
        if name not in ("exp", "log", "tanh", "arctan", "pow"):
            raise Give()
        d = self.dsym(args[0])
        if name == "pow":
            return mul(mul(x, enc(args[1].num.const())), mul(d, inv(self.sym(args[0]))))
        if name == "exp":
            return mul(x, d)
        if name == "tanh":
            return mul(sub((1.0, 1.0), power(x, 2)), d)
        a = self.sym(args[0])
        if name == "log":
            return mul(d, inv(a))
        return mul(d, inv(add((1.0, 1.0), power(a, 2))))


class Cell:
    """a box together with its midpoint"""

    def __init__(self, lo, hi):
        """lo, hi: fractions"""
        self.a, self.b = enc(lo)[0], enc(hi)[1]
        self.box = Box(self.a, self.b)
        m = float((lo + hi) / 2)
        self.m = min(max(m, self.a), self.b)
        self.mid = None
        self.cache = {}

    def sign(self, q):
        """mask NEG | ZERO | POS of the possible signs"""
        r = self.cache.get(q.uid)
        if r is None:
            r = self.cache[q.uid] = self._sign(q)
        return r

    def _sign(self, q):
        lo, hi = -INF, INF
        try:
            lo, hi = self.box.poly(q)
        except (Give, OverflowError, ZeroDivisionError):
            pass
        if lo <= 0 <= hi:
            try:
                if self.mid is None:
                    self.mid = Box(self.m, self.m)
                c = self.mid.poly(q)
                d = self.box.dpoly(q)
                w = add(c, mul(d, (nx(self.a - self.m, -INF), nx(self.b - self.m, INF))))
                lo, hi = max(lo, w[0]), min(hi, w[1])
            except (Give, OverflowError, ZeroDivisionError):
                pass
        if lo > hi or lo != lo or hi != hi:
            return core.ALL
        return (core.NEG if lo < 0 else 0) | (core.POS if hi > 0 else 0) | (core.ZERO if lo <= 0 <= hi else 0)
