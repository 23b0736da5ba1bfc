"""Exact decisions for paths on which a single input is unknown.

Every polynomial on such a path is a polynomial in one variable x and square roots of polynomials in x (towers). The
path condition is kept as a union of points and open intervals whose end points are real algebraic numbers; the roots
are isolated and compared by z3's algebraic-number solver. A polynomial with square roots changes sign only at roots of
its norm (product over the conjugates), so its sign is constant between consecutive roots of the norm.
"""
from __future__ import annotations

import time
from fractions import Fraction

import mpmath
import z3
from z3.z3num import Numeral, isolate_roots

from . import core, fastiv
from .core import ALL, NEG, POS, ZERO, Poly, padd, pmul, psub

F = Fraction
MAXDEG = 48
_X = None


def _var():
    global _X
    if _X is None:
        _X = z3.Var(0, z3.RealSort())
    return _X


def num(fr):
    return Numeral(z3.RealVal(str(fr)))


def _frac(v):
    return F(str(v))


class Piece:
    __slots__ = ("a", "b", "_s")

    def __init__(self, a, b):
        self.a = a  # Numeral or None (-inf)
        self.b = b  # Numeral, None (+inf); a is b for a point
        self._s = None

    @property
    def point(self):
        return self.a is not None and self.a is self.b

    def sample(self):
        """(Fraction, exact?)"""
        if self._s is None:
            if self.point:
                self._s = (_rat(self.a), True) if self.a.is_rational() else (_frac(self.a.approx(60)), False)
            elif self.a is None and self.b is None:
                self._s = (F(37, 16), True)
            elif self.a is None:
                self._s = (F(int(_lowfl(self.b)) - 2) + F(5, 16), True)
            elif self.b is None:
                self._s = (F(int(_lowfl(self.a)) + 2) + F(5, 16), True)
            else:
                self._s = (_between(self.a, self.b), True)
        return self._s

    def width(self):
        if self.point:
            return -1.0
        if self.a is None or self.b is None:
            return 1e300
        return float(_frac(self.b.approx(10)) - _frac(self.a.approx(10)))


def _rat(n):
    return n.as_fraction()


def _lowfl(n):
    import math

    return math.floor(_frac(n.approx(5)))


def _between(a, b):
    for k in (6, 12, 25, 50, 100, 200, 400):
        lo = _rat(a) if a.is_rational() else _frac(a.upper(k))
        hi = _rat(b) if b.is_rational() else _frac(b.lower(k))
        if lo < hi:
            m = (lo + hi) / 2
            w = hi - lo
            d = 16
            while True:
                q = m.limit_denominator(d)
                if abs(q - m) < w / 4:
                    return q
                d *= 64
    raise core.Unsupported("root separation")


class Uni:
    def __init__(self, eng):
        self.eng = eng
        self.gid = None
        self.n = 0
        self.pieces = None
        self.ok = True
        self.others = []  # atoms outside the algebraic fragment (transcendental functions)

    # -- applicability
    def base(self, q):
        """gid of the only input q depends on; None if not applicable"""
        W = core.W
        c = W.__dict__.setdefault("_uni_base", {})
        r = c.get(q.uid, 0)
        if r != 0:
            return r
        ids = self.eng.closure_gens(q.gen_ids())
        r = None
        for g in ids:
            k = W.gens[g].kind
            if k == "input":
                if r is not None and r != g:
                    r = None
                    break
                r = g
            elif k not in ("sqrt", "uf"):
                r = None
                break
        c[q.uid] = r
        return r

    def algebraic(self, q):
        W = core.W
        return all(W.gens[g].kind != "uf" for g in self.eng.closure_gens(q.gen_ids()))

    def crit(self, q):
        """sorted critical points of q (roots of its norm and of the radicands); None if out of reach"""
        W = core.W
        c = W.__dict__.setdefault("_uni_crit", {})
        if q.uid in c:
            return c[q.uid]
        r = None
        try:
            if self.algebraic(q):
                r = self._crit(q)
        except core.Unsupported:
            r = None
        c[q.uid] = r
        return r

    def _crit(self, q):
        W = core.W
        out = []
        seen = set()
        ids = self.eng.closure_gens(q.gen_ids())
        rads = sorted((g for g in ids if W.gens[g].kind == "sqrt"), reverse=True)
        if len(rads) > 6:
            return None
        polys = [q] + [W.gens[g].arg for g in rads]
        for p in polys:
            p = self._norm(p)
            if p is None:
                return None
            if p.is_const():
                if not p.t and p is not None:
                    return None
                continue
            rs = self._roots(p)
            if rs is None:
                return None
            out.extend(rs)
        return _sorted_unique(out)

    def _norm(self, p):
        W = core.W
        for _ in range(12):
            s = max((g for g in p.gen_ids() if W.gens[g].kind == "sqrt"), default=None)
            if s is None:
                return p
            A, B = {}, {}
            for m, c in p.t.items():
                if s in m:
                    m2 = list(m)
                    m2.remove(s)
                    if s in m2:
                        return None
                    B[tuple(m2)] = c
                else:
                    A[m] = c
            A, B = Poly(A), Poly(B)
            p = psub(pmul(A, A), pmul(pmul(B, B), W.gens[s].arg))
            if p.degree() > 4 * MAXDEG:
                return None
        return None

    def _roots(self, p):
        co = {}
        for m, c in p.t.items():
            co[len(m)] = c
        d = max(co)
        if d > MAXDEG:
            return None
        den = 1
        for c in co.values():
            den = den * c.denominator // _gcd(den, c.denominator)
        x = _var()
        e = z3.RealVal(int(co.get(d, 0) * den))
        for i in range(d - 1, -1, -1):
            e = e * x + z3.RealVal(int(co.get(i, 0) * den))
        return list(isolate_roots(e))

    # -- signs on pieces
    def _sign_at(self, q, pc, crit):
        x, exact = pc.sample()
        W = core.W
        if exact and all(W.gens[g].kind == "input" for g in q.gen_ids()):
            v = F(0)
            for m, c in q.t.items():
                v += c * x ** len(m)
            return POS if v > 0 else NEG if v < 0 else ZERO
        for prec in (60, 150):
            if pc.point and not exact:
                x = _frac(pc.a.approx(prec + 10))
            with mpmath.workdps(prec):
                v, sc = self._num(q, x, {})
                if abs(v) > sc * mpmath.mpf(10) ** (-prec // 2):
                    return POS if v > 0 else NEG
        if pc.point:
            return ZERO
        return None

    def _num(self, q, x, vals):
        tot = mpmath.mpf(0)
        sc = mpmath.mpf(0)
        for m, c in q.t.items():
            v = mpmath.mpf(c.numerator) / c.denominator
            for g in m:
                v = v * self._gval(g, x, vals)
            tot += v
            sc += abs(v)
        return tot, sc

    def _gval(self, g, x, vals):
        r = vals.get(g)
        if r is None:
            gen = core.W.gens[g]
            if gen.kind == "input":
                r = mpmath.mpf(x.numerator) / x.denominator
            elif gen.kind == "uf":
                r = gen.info["fn"](*[self._nums(a, x, vals) for a in gen.info["args"]])
            else:
                v, sc = self._num(gen.arg, x, vals)
                if v < 0 or abs(v) <= sc * mpmath.mpf(10) ** (-mpmath.mp.dps // 2 - 5):
                    v = mpmath.mpf(0)
                r = mpmath.sqrt(v)
            vals[g] = r
        return r

    def _nums(self, s, x, vals):
        if s.sp:
            raise _Give()
        v = self._num(s.num, x, vals)[0]
        for p, e in s.den:
            v = v / self._num(p, x, vals)[0] ** e
        return v

    def split(self, pieces, crit):
        out = []
        for pc in pieces:
            if pc.point or not crit:
                out.append(pc)
                continue
            a = pc.a
            hit = False
            for r in crit:
                if a is not None and not a < r:
                    continue
                if pc.b is not None and not r < pc.b:
                    break
                hit = True
                out.append(Piece(a, r))
                out.append(Piece(r, r))
                a = r
            if not hit:
                out.append(pc)
            else:
                out.append(Piece(a, pc.b))
        return out

    def restrict(self, pieces, q, mask):
        """pieces on which sign(q) in mask; None if undecidable here"""
        crit = self.crit(q)
        if crit is None:
            return None
        out = []
        for pc in self.split(pieces, crit):
            s = self._sign_at(q, pc, crit)
            if s is None:
                return None
            if s & mask:
                out.append(pc)
        return out

    # -- path condition
    def start_pieces(self, gid):
        lo = core.W.gens[gid].lo
        if lo == ALL:
            return [Piece(None, None)]
        z = num(0)
        out = []
        if lo & NEG:
            out.append(Piece(None, z))
        if lo & ZERO:
            out.append(Piece(z, z))
        if lo & POS:
            out.append(Piece(z, None))
        return out

    def sync(self):
        if not self.ok:
            return False
        eng = self.eng
        if eng.extra:
            self.ok = False
            return False
        while self.n < len(eng.atoms):
            q, m = eng.atoms[self.n]
            b = self.base(q)
            if b is None:
                if all(core.W.gens[g].kind == "sqrt" for g in eng.closure_gens(q.gen_ids())):
                    self.n += 1  # a constant fact
                    continue
                self.ok = False
                return False
            if self.gid is None:
                self.gid = b
                self.pieces = self.start_pieces(b)
            if b != self.gid:
                self.ok = False
                return False
            p = self.restrict(self.pieces, q, m)
            if p is None:
                self.others.append((q, m))
            else:
                self.pieces = p
            self.n += 1
        return True

    def decide(self, opt):
        """('sat', model) / ('unsat', None) / None"""
        if not self.sync():
            return None
        gid = self.gid
        for q, _ in opt:
            b = self.base(q)
            if b is None or (gid is not None and b != gid):
                return None
            gid = b
        if gid is None:
            return None
        t0 = time.time()
        pieces = self.pieces if self.gid is not None else self.start_pieces(gid)
        try:
            others = list(self.others)
            for q, m in opt:
                p = self.restrict(pieces, q, m)
                if p is None:
                    others.append((q, m))
                else:
                    pieces = p
            if not pieces:
                return "unsat", None
            if not others:
                return "sat", self.model(pieces, gid)
            x = self.witness(pieces, [lambda v, q=q, m=m: bool(self._num_sign(q, v) & m) for q, m in others])
            if x is not None:
                return "sat", {core.W.gens[gid].name: x}
            if self.refute(pieces, lambda iv: any(not (self._iv_sign(q, iv) & m) for q, m in others)):
                return "unsat", None
            return None
        finally:
            self._count(t0)

    def _count(self, t0):
        st = self.eng.stats
        st.queries += 1
        dt = time.time() - t0
        st.solver_s += dt
        st.max_query = max(st.max_query, dt)

    # -- transcendental functions: witnesses by evaluation, refutation by interval constraint propagation
    def _points(self, pc):
        yield pc.sample()[0]
        if pc.point:
            return
        a = _frac(pc.a.approx(12)) if pc.a is not None else None
        b = _frac(pc.b.approx(12)) if pc.b is not None else None
        if a is not None and b is not None:
            for f in (F(1, 64), F(1, 7), F(2, 7), F(3, 7), F(4, 7), F(5, 7), F(6, 7), F(63, 64)):
                yield (a + (b - a) * f).limit_denominator(10**9) if b - a > F(1, 10**6) else a + (b - a) * f
        elif a is not None:
            for f in (F(1, 16), 1, 5, 40, 1000):
                yield a.limit_denominator(10**9) + f
        elif b is not None:
            for f in (F(1, 16), 1, 5, 40, 1000):
                yield b.limit_denominator(10**9) - f
        else:
            for f in (-1000, -30, -4, -1, 0, 1, 4, 30, 1000):
                yield F(f) + F(1, 16)

    def _inside(self, pc, x):
        n = num(x)
        if pc.point:
            return True
        return (pc.a is None or pc.a < n) and (pc.b is None or n < pc.b)

    def witness(self, pieces, preds):
        for pc in sorted(pieces, key=lambda p: -min(p.width(), 1e6))[:8]:
            for x in self._points(pc):
                x = F(x)
                if self._inside(pc, x) and all(p(x) for p in preds):
                    return x
        return None

    def _num_sign(self, q, x):
        """numerical sign at a rational point; 0 when too close to zero to tell"""
        with mpmath.workdps(40):
            try:
                v, sc = self._num(q, x, {})
            except (_Give, ZeroDivisionError, ValueError):
                return 0
            if isinstance(v, mpmath.mpc):
                return 0
            if abs(v) <= sc * mpmath.mpf(10) ** -11:
                return 0
            return POS if v > 0 else NEG

    def refute(self, pieces, empty, limit=1500):
        """True if every box of the pieces is discarded by `empty` (interval arithmetic)"""
        boxes = []
        for pc in pieces:
            if pc.a is None or pc.b is None:
                return False
            if pc.point and pc.a.is_rational():
                a = b = _rat(pc.a)
            else:
                a = _rat(pc.a) if pc.a.is_rational() else _frac(pc.a.lower(40))
                b = _rat(pc.b) if pc.b.is_rational() else _frac(pc.b.upper(40))
            boxes.append((a, b, 0))
        n = 0
        end = time.time() + 1.5
        while boxes:
            a, b, d = boxes.pop()
            n += 1
            if n > limit or time.time() > end:
                return False
            if empty((a, b)):
                continue
            if d > 40 or b - a < F(1, 10**9):
                return False
            m = (a + b) / 2
            boxes += [(a, m, d + 1), (m, b, d + 1)]
        return True

    def _iv_sign(self, q, box):
        c = getattr(self, "_cell", None)
        if c is None or c[0] != box:
            c = self._cell = (box, fastiv.Cell(*box))
        r = c[1].sign(q)
        if r in (NEG, POS) or box[1] - box[0] > F(1, 10**7):
            return r
        return r & self._iv_sign_exact(q, box)

    def _iv_sign_exact(self, q, box):
        old = mpmath.iv.dps
        mpmath.iv.dps = 30
        try:
            v = self._ivp(q, box, {})
            lo, hi = v.a, v.b
            if lo <= 0 <= hi:  # mean value form: first order, much tighter on small boxes
                try:
                    m = (box[0] + box[1]) / 2
                    c = self._ivp(q, (m, m), {})
                    d = self._dvp(q, box, {}, {})
                    x, y = mpmath.iv.mpf(box[0].numerator) / box[0].denominator, mpmath.iv.mpf(box[1].numerator) / box[1].denominator
                    w = c + d * (mpmath.iv.mpf([x.a, y.b]) - mpmath.iv.mpf(m.numerator) / m.denominator)
                    lo, hi = max(lo, w.a), min(hi, w.b)
                except (_Give, ZeroDivisionError, ValueError, mpmath.libmp.ComplexResult):
                    pass
            return (NEG if lo < 0 else 0) | (POS if hi > 0 else 0) | (ZERO if lo <= 0 <= hi else 0)
        except (_Give, ZeroDivisionError, ValueError, mpmath.libmp.ComplexResult):
            return ALL
        finally:
            mpmath.iv.dps = old

    def _ivp(self, q, box, vals):
        iv = mpmath.iv
        tot = iv.mpf(0)
        for m, c in q.t.items():
            v = iv.mpf(c.numerator) / c.denominator
            i = 0
            while i < len(m):
                j = i
                while j < len(m) and m[j] == m[i]:
                    j += 1
                g = self._ivg(m[i], box, vals)
                v = v * (g ** (j - i) if j - i > 1 else g)
                i = j
            tot += v
        return tot

    # derivative with respect to the variable, over a box
    def _dvp(self, q, box, vals, ders):
        iv = mpmath.iv
        tot = iv.mpf(0)
        for m, c in q.t.items():
            cv = iv.mpf(c.numerator) / c.denominator
            for g in set(m):
                k = m.count(g)
                dg = self._dvg(g, box, vals, ders)
                if dg == 0:
                    continue
                v = cv * k * dg
                for h in set(m):
                    e = m.count(h) - (h == g)
                    if e:
                        x = self._ivg(h, box, vals)
                        v = v * (x ** e if e > 1 else x)
                tot += v
        return tot

    def _dvs(self, s, box, vals, ders):
        """derivative of num / prod p^e"""
        n, d = self._ivp(s.num, box, vals), self._dvp(s.num, box, vals, ders)
        den = mpmath.iv.mpf(1)
        rel = mpmath.iv.mpf(0)
        for p, e in s.den:
            v = self._ivp(p, box, vals)
            if v.a <= 0 <= v.b:
                raise _Give()
            den = den * v ** e
            rel = rel + e * self._dvp(p, box, vals, ders) / v
        return (d - n * rel) / den

    def _dvg(self, g, box, vals, ders):
        r = ders.get(g)
        if r is not None:
            return r
        iv = mpmath.iv
        gen = core.W.gens[g]
        if gen.kind == "input":
            r = iv.mpf(1)
        else:
            x = self._ivg(g, box, vals)
            if gen.kind == "sqrt":
                if x.a <= 0:
                    raise _Give()
                r = self._dvp(gen.arg, box, vals, ders) / (2 * x)
            else:
                name, args = gen.info["name"], gen.info["args"]
                if name not in ("exp", "log", "tanh", "arctan"):
                    raise _Give()
                d = self._dvs(args[0], box, vals, ders)
                if name == "exp":
                    r = x * d
                elif name == "tanh":
                    r = (1 - x * x) * d
                else:
                    a = self._ivs(args[0], box, vals)
                    if name == "log" and a.a <= 0:
                        raise _Give()
                    r = d / a if name == "log" else d / (1 + a * a)
        ders[g] = r
        return r

    def _ivs(self, s, box, vals):
        if s.sp:
            raise _Give()
        v = self._ivp(s.num, box, vals)
        for p, e in s.den:
            d = self._ivp(p, box, vals)
            if d.a <= 0 <= d.b:
                raise _Give()
            v = v / d ** e
        return v

    def _ivg(self, g, box, vals):
        r = vals.get(g)
        if r is not None:
            return r
        iv = mpmath.iv
        gen = core.W.gens[g]
        if gen.kind == "input":
            a, b = box
            r = iv.mpf([(iv.mpf(a.numerator) / a.denominator).a, (iv.mpf(b.numerator) / b.denominator).b])
        elif gen.kind == "sqrt":
            v = self._ivp(gen.arg, box, vals)
            lo = v.a if v.a > 0 else iv.mpf(0).a
            if v.b < 0:
                raise _Give()
            r = iv.sqrt(iv.mpf([lo, v.b]))
        else:
            args = gen.info["args"]
            if gen.info["name"] == "pow" and not args[1].is_const() or len(args) > 2:
                raise _Give()
            v = self._ivs(args[0], box, vals)
            rest = [mpmath.mpf(float(a.num.const())) for a in args[1:]]
            with mpmath.workdps(30):
                f = gen.info["fn"]
                e1, e2 = f(mpmath.mpf(v.a.a if hasattr(v.a, "a") else v.a), *rest), f(mpmath.mpf(v.b.b if hasattr(v.b, "b") else v.b), *rest)
                if isinstance(e1, mpmath.mpc) or isinstance(e2, mpmath.mpc) or not (mpmath.isfinite(e1) and mpmath.isfinite(e2)):
                    raise _Give()
                lo, hi = min(e1, e2), max(e1, e2)
                pad = mpmath.mpf(10) ** -12 * (1 + abs(lo) + abs(hi))
            r = iv.mpf([lo - pad, hi + pad])
        vals[g] = r
        return r

    def model(self, pieces, gid):
        best = max(pieces, key=lambda p: (p.sample()[1], min(p.width(), 1e6)))
        return {core.W.gens[gid].name: best.sample()[0]}

    # -- assertions
    def check(self, cond, zsign_poly):
        """('holds', None) / ('violated', [models]) / None"""
        if not self.sync():
            return None
        atoms = {}
        gid = self.gid

        def walk(c):
            nonlocal gid
            if c.op == "const":
                return True
            if c.op == "atom":
                d = c.args[0]
                if d.sp:
                    return True
                p = zsign_poly(d)
                if p.is_const():
                    atoms[id(c)] = p
                    return True
                p = core.intern(p)
                b = self.base(p)
                if b is None or (gid is not None and b != gid):
                    return False
                gid = b
                atoms[id(c)] = p
                return True
            args = c.args[0] if c.op in ("count_le", "count_ge") else c.args
            return all(walk(a) for a in args)

        if not walk(cond) or gid is None:
            return None
        t0 = time.time()
        try:
            return self._check(cond, atoms, gid)
        finally:
            self._count(t0)

    def _check(self, cond, atoms, gid):
        pieces = self.pieces if self.gid is not None else self.start_pieces(gid)
        crit = []
        alg = not self.others
        undec = False
        for p in {p.uid: p for p in atoms.values() if not p.is_const()}.values():
            c = self.crit(p)
            if c is None:
                undec = True
                break
            crit.extend(c)
        bad = []
        if not undec:
            crit = _sorted_unique(crit)

            def sg(p, pc):
                s = self._sign_at(p, pc, crit)
                if s is None:
                    raise _Give()
                return s

            try:
                for pc in self.split(pieces, crit):
                    if not _ev(cond, atoms, lambda p: sg(p, pc)):
                        bad.append(pc)
            except _Give:
                return None
            if not bad:
                return "holds", None
            bad.sort(key=lambda p: (-p.sample()[1], -min(p.width(), 1e6)))
            if alg:
                return "violated", [{core.W.gens[gid].name: p.sample()[0]} for p in bad[:4]]
            pieces = bad
        preds = [lambda v, q=q, m=m: bool(self._num_sign(q, v) & m) for q, m in self.others]

        def falsified(x):
            try:
                return not _ev(cond, atoms, lambda p: self._num_sign(p, x), definite=True)
            except _Give:
                return False

        x = self.witness(pieces, preds + [falsified])
        if x is not None:
            return "violated", [{core.W.gens[gid].name: x}]

        def empty(box):
            if any(not (self._iv_sign(q, box) & m) for q, m in self.others):
                return True
            return _ev_mask(cond, atoms, lambda p: self._iv_sign(p, box)) == 2

        return ("holds", None) if self.refute(pieces, empty, 3000) else None


def _args(c):
    return c.args[0] if c.op in ("count_le", "count_ge") else c.args


def _ev(c, atoms, sg, definite=False):
    if c.op == "const":
        return bool(c.args[0])
    if c.op == "atom":
        d = c.args[0]
        if d.sp:
            return d.sp != "nan" and bool(c.args[1] & (POS if d.sp == "inf" else NEG))
        p = atoms[id(c)]
        if p.is_const():
            v = p.const()
            s = POS if v > 0 else NEG if v < 0 else ZERO
        else:
            s = sg(p)
            if definite and s == 0:
                raise _Give()
        return bool(s & c.args[1])
    vs = [_ev(a, atoms, sg, definite) for a in _args(c)]
    if c.op == "and":
        return all(vs)
    if c.op == "or":
        return any(vs)
    if c.op == "not":
        return not vs[0]
    return sum(vs) <= c.args[1] if c.op == "count_le" else sum(vs) >= c.args[1]


def _ev_mask(c, atoms, sg):
    """2 true, 0 false, 1 undecided, from interval signs"""
    if c.op == "const":
        return 2 if c.args[0] else 0
    if c.op == "atom":
        d = c.args[0]
        if d.sp:
            return 2 if d.sp != "nan" and c.args[1] & (POS if d.sp == "inf" else NEG) else 0
        p = atoms[id(c)]
        if p.is_const():
            v = p.const()
            s = POS if v > 0 else NEG if v < 0 else ZERO
        else:
            s = sg(p)
        return 2 if not (s & ~c.args[1]) else (0 if not s & c.args[1] else 1)
    vs = [_ev_mask(a, atoms, sg) for a in _args(c)]
    if c.op == "and":
        return min(vs, default=2)
    if c.op == "or":
        return max(vs, default=0)
    if c.op == "not":
        return 2 - vs[0]
    sure, may = sum(v == 2 for v in vs), sum(v >= 1 for v in vs)
    k = c.args[1]
    if c.op == "count_le":
        return 2 if may <= k else (0 if sure > k else 1)
    return 2 if sure >= k else (0 if may < k else 1)


class _Give(Exception):
    pass


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def _sorted_unique(rs):
    import functools

    rs = sorted(rs, key=functools.cmp_to_key(lambda a, b: -1 if a < b else (1 if b < a else 0)))
    out = []
    for r in rs:
        if not out or out[-1] < r:
            out.append(r)
    return out
