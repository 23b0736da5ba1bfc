"""Path exploration, solver queries and assertions over `core.Sym`."""
from __future__ import annotations

import math
import os
import time
import zlib
import traceback
from fractions import Fraction

import mpmath
import numpy as np
import z3

from . import core
from .core import (
    ALL, INF, NAN, NEG, NINF, POS, S0, S1, W, ZERO, Infeasible, PathLimit, Poly, Sym, Unsupported,
    _flip, gsym, intern, mono_content, padd, pconst, pmul, pneg, ppow, primitive, pscale, psqrt_exact,
    psub, static_sign,
)

mpmath.mp.dps = 50

FORKS = os.environ.get("SYMROB_FORKS")  # debugging: file to log the forking sites to


class CheckFailed(BaseException):
    """raised (native mode) or used as record (symbolic mode)"""


# ----------------------------------------------------------------------------------------------
# conditions
# ----------------------------------------------------------------------------------------------
class Cond:
    """A boolean formula over sign atoms, built without forking."""

    __slots__ = ("op", "args")

    def __init__(self, op, *args):
        self.op = op
        self.args = args

    def __and__(self, o):
        return Cond("and", self, _cond(o))

    def __or__(self, o):
        return Cond("or", self, _cond(o))

    __rand__ = __and__
    __ror__ = __or__

    def __invert__(self):
        return Cond("not", self)

    def __bool__(self):
        raise RuntimeError("Cond used as bool")


def _cond(x):
    if isinstance(x, Cond):
        return x
    return Cond("const", bool(x))


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown_feas = 0
        self.unknown_check = 0
        self.paths = 0
        self.infeasible = 0
        self.unsupported = {}
        self.checks = 0
        self.check_trivial = 0
        self.check_unsat = 0
        self.forks = 0
        self.max_query = 0.0


_FR = [Fraction(41, 97), Fraction(59, 113), Fraction(29, 101), Fraction(71, 103), Fraction(11, 107), Fraction(97, 109)]


class Engine:
    def __init__(self, feas_ms=400, check_ms=4000, max_forks=4000):
        self.feas_ms = feas_ms
        self.check_ms = check_ms
        self.max_forks = max_forks
        self.stats = Stats()
        self.start([], None)

    # -- path state
    def start(self, prefix, model):
        self.prefix = list(prefix)
        self.pos = 0
        self.decisions = []
        self.atoms = []  # list of (poly, mask)
        self.extra = []  # raw z3 constraints (harness assumptions)
        self.memo = {}
        self.edges = {}
        self.iv = {}  # gid -> [lo, lo_strict, hi, hi_strict] from univariate linear atoms
        self._ne = []
        self._last_gids = set()
        self.lin_path = True
        from .univar import Uni

        self.univ = Uni(self)
        self.uni = None  # the only variable of the path condition while it is univariate linear; False otherwise
        self._lra = None
        self._lra_n = 0
        self._lra_ids = set()
        self.model = model  # dict name -> Fraction or None
        self._val = {}
        self._solver = None
        self._solver_n = 0
        self._solver_gens = set()
        self.pending = []
        self.uf_seen = []
        self.linear = True

    # -- inputs
    def input(self, name, sign=ALL):
        g = W.gen(("in", name), "input", name, sign=sign)
        return gsym(g)

    # ------------------------------------------------------------------------------------------
    # evaluation under the guiding model
    # ------------------------------------------------------------------------------------------
    def gen_val(self, gid):
        """(Fraction or float mp value, exact?)"""
        r = self._val.get(gid)
        if r is not None:
            return r
        g = W.gens[gid]
        if g.kind == "input":
            v = self.model.get(g.name)
            if v is None:
                v = self.model[g.name] = generic_value(g.name, g.lo)
            r = (v, True)
        elif g.kind == "sqrt":
            v, ex = self.eval_poly(g.arg)
            if v < 0:
                v = Fraction(0) if v > -Fraction(1, 10**9) else abs(v)
                ex = False
            q = core.frac_sqrt(v) if ex else None
            if q is not None:
                r = (q, True)
            else:
                r = (Fraction(str(mpmath.nstr(mpmath.sqrt(mpmath.mpf(v.numerator) / v.denominator), 45))), False)
        elif g.kind == "uf":
            vals = [self.eval_sym(a)[0] for a in g.info["args"]]
            try:
                f = g.info["fn"](*[mpmath.mpf(v.numerator) / v.denominator for v in vals])
                r = (Fraction(str(mpmath.nstr(f, 45))), False)
            except Exception:
                r = (Fraction(1), False)
        else:
            raise RuntimeError(g.kind)
        self._val[gid] = r
        return r

    def eval_poly(self, p: Poly):
        # quick float pass is not worth it for small polys
        tot = Fraction(0)
        ex = True
        for m, c in p.t.items():
            v = c
            for gid in m:
                x, e = self.gen_val(gid)
                ex = ex and e
                v = v * x
            tot += v
        return tot, ex

    def eval_sym(self, s: Sym):
        if s.sp:
            return s.to_float(), True
        n, ex = self.eval_poly(s.num)
        for p, e in s.den:
            d, ex2 = self.eval_poly(p)
            ex = ex and ex2
            if d == 0:
                return Fraction(0), False
            n = n / d**e
        return n, ex

    def eval_sign(self, p: Poly):
        """NEG/ZERO/POS or 0 when ambiguous under the model."""
        v, ex = self.eval_poly(p)
        if not ex:
            sc = sum(abs(c) * _prod(abs(self.gen_val(g)[0]) for g in m) for m, c in p.t.items())
            if abs(v) <= sc / 10**30:
                return 0
        return POS if v > 0 else NEG if v < 0 else ZERO

    # ------------------------------------------------------------------------------------------
    # z3 translation
    # ------------------------------------------------------------------------------------------
    def z_gen(self, gid):
        g = W.gens[gid]
        if g.z3 is None:
            g.z3 = z3.Real(f"{g.name}" if g.kind == "input" else f"{g.kind}!{gid}")
        return g.z3

    def z_poly(self, p: Poly):
        if p._z3 is None:
            terms = []
            for m, c in p.t.items():
                f = [self.z_gen(g) for g in m]
                cz = z3.RealVal(str(c))
                if not f:
                    terms.append(cz)
                elif c == 1:
                    terms.append(f[0] if len(f) == 1 else z3.Product(f))
                else:
                    terms.append(cz * (f[0] if len(f) == 1 else z3.Product(f)))
            p._z3 = z3.Sum(terms) if len(terms) > 1 else (terms[0] if terms else z3.RealVal(0))
        return p._z3

    def z_atom(self, p, mask):
        e = self.z_poly(p)
        return {
            0: z3.BoolVal(False), 7: z3.BoolVal(True), NEG: e < 0, POS: e > 0, ZERO: e == 0,
            NEG | ZERO: e <= 0, POS | ZERO: e >= 0, NEG | POS: e != 0,
        }[mask]

    def closure_gens(self, gids):
        out = set()
        todo = list(gids)
        while todo:
            g = todo.pop()
            if g in out:
                continue
            out.add(g)
            gen = W.gens[g]
            if gen.kind == "sqrt":
                todo.extend(gen.arg.gen_ids())
            elif gen.kind == "uf":
                for a in gen.info["args"]:
                    todo.extend(a.gen_ids())
        return out

    def gen_axioms(self, gids):
        """constraints defining / bounding the (closed) set of generators"""
        out = []
        ufs = []
        for gid in sorted(gids):
            g = W.gens[gid]
            z = self.z_gen(gid)
            if g.kind == "input":
                if g.lo != ALL:
                    out.append(self.z_atom(Poly({(gid,): Fraction(1)}), g.lo))
            elif g.kind == "sqrt":
                out.append(z >= 0)
                out.append(z * z == self.z_poly(g.arg))
            elif g.kind == "uf":
                ufs.append(g)
        for i, g in enumerate(ufs):
            out.extend(g.info["axioms"](self, g))
            for h in ufs[:i]:
                if h.info["name"] == g.info["name"]:
                    out.extend(g.info["pair"](self, g, h))
        return out

    def z_diff_cmp(self, a: Sym, b: Sym, mask):
        """z3 bool for sign(a-b) in mask, with rational functions (denominators known non-zero)."""
        return self.z_sign(a - b, mask)

    def z_sign(self, d: Sym, mask):
        if d.sp:
            if d.sp == "nan":
                return z3.BoolVal(False)
            return z3.BoolVal(bool(mask & (POS if d.sp == "inf" else NEG)))
        p = self.sign_poly(d)
        if p.is_const():
            c = p.const()
            return z3.BoolVal(bool(mask & (ZERO if c == 0 else POS if c > 0 else NEG)))
        self._last_gids |= p.gen_ids()
        return self.z_atom(p, mask)

    def sign_poly(self, d: Sym):
        """polynomial with the sign of the (finite) rational function d"""
        p = d.num
        for q, e in d.den:
            if e % 2:
                s = static_sign(q) & self.memo.get(q.uid, ALL)
                if s in (POS, POS | ZERO):
                    continue
                if s in (NEG, NEG | ZERO):
                    p = pneg(p)
                    continue
                p = pmul(p, q)
        return p

    def z_cond(self, c: Cond):
        if c.op == "const":
            return z3.BoolVal(c.args[0])
        if c.op == "atom":
            return self.z_sign(c.args[0], c.args[1])
        if c.op == "and":
            return z3.And([self.z_cond(a) for a in c.args])
        if c.op == "or":
            return z3.Or([self.z_cond(a) for a in c.args])
        if c.op == "not":
            return z3.Not(self.z_cond(c.args[0]))
        if c.op == "count_le":  # number of true conditions <= k
            return z3.Sum([z3.If(self.z_cond(a), 1, 0) for a in c.args[0]]) <= c.args[1]
        if c.op == "count_ge":
            return z3.Sum([z3.If(self.z_cond(a), 1, 0) for a in c.args[0]]) >= c.args[1]
        raise RuntimeError(c.op)

    # ------------------------------------------------------------------------------------------
    # solving
    # ------------------------------------------------------------------------------------------
    def _is_linear(self, polys, gids):
        if any(W.gens[g].kind != "input" for g in gids):
            return False
        return all(p.degree() <= 1 for p in polys)

    def solve(self, atoms, extra_z=(), gids=(), ms=1000, want_model=True):
        """one-shot query; returns ('sat', model) | ('unsat', None) | ('unknown', None)"""
        t0 = time.time()
        polys = [p for p, _ in atoms]
        ids = set(gids)
        for p in polys:
            ids |= p.gen_ids()
        ids = self.closure_gens(ids)
        cons = [self.z_atom(p, m) for p, m in atoms] + list(extra_z) + list(self.extra)
        lin = self._is_linear(polys, ids) and not extra_z and not self.extra
        ax = self.gen_axioms(ids)
        self.stats.queries += 1
        res = "unknown"
        model = None
        tries = ("lra",) if lin else ("nra", "smt")
        for kind in tries:
            if kind == "lra":
                s = z3.SimpleSolver()
            elif kind == "nra":
                s = z3.SolverFor("QF_NRA")
            else:
                s = z3.Solver()
            s.set("timeout", int(ms if kind != "smt" else max(200, ms // 2)))
            s.add(*cons)
            s.add(*ax)
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            if r == z3.unsat:
                res = "unsat"
                break
            if r == z3.sat:
                res = "sat"
                if want_model:
                    model = self.extract_model(s.model(), ids)
                break
        dt = time.time() - t0
        self.stats.solver_s += dt
        self.stats.max_query = max(self.stats.max_query, dt)
        return res, model

    def feasible(self, opt):
        """is the path condition plus opt satisfiable?"""
        r = self._uni_solve(opt)
        if r is not None:
            self.stats.queries += 1
            return r
        lin = not self.extra and self.lin_path
        if not lin or any(q.degree() > 1 for q, _ in opt):
            r = self.univ.decide(opt)
            if r is not None:
                return r
        if lin:
            for q, _ in opt:
                lin = lin and q.degree() <= 1 and all(W.gens[g].kind == "input" for g in q.gen_ids())
        if not lin:
            return self.solve(self.atoms + opt, ms=self.feas_ms)
        t0 = time.time()
        s = self._sync_lra()
        self.stats.queries += 1
        s.push()
        new = set()
        for q, m in opt:
            s.add(self.z_atom(q, m))
            for g in q.gen_ids() - self._lra_ids - new:
                new.add(g)
                if W.gens[g].lo != ALL:
                    s.add(self.z_atom(Poly({(g,): Fraction(1)}), W.gens[g].lo))
        r = s.check()
        mdl = self.extract_model(s.model(), self._lra_ids | new) if r == z3.sat else None
        s.pop()
        dt = time.time() - t0
        self.stats.solver_s += dt
        self.stats.max_query = max(self.stats.max_query, dt)
        return str(r), mdl

    def _sync_lra(self):
        s = self._lra
        if s is None:
            s = self._lra = z3.SimpleSolver()
            s.set("timeout", int(self.feas_ms) * 4)
        while self._lra_n < len(self.atoms):
            q, m = self.atoms[self._lra_n]
            self._lra_n += 1
            s.add(self.z_atom(q, m))
            self._lra_add(s, q)
        return s

    def _check_lra(self, z):
        t0 = time.time()
        s = self._sync_lra()
        self.stats.queries += 1
        s.push()
        s.add(z)
        for g in self._last_gids - self._lra_ids:
            if W.gens[g].lo != ALL:
                s.add(self.z_atom(Poly({(g,): Fraction(1)}), W.gens[g].lo))
        r = s.check()
        mdl = self.extract_model(s.model(), self._lra_ids | self._last_gids) if r == z3.sat else None
        s.pop()
        dt = time.time() - t0
        self.stats.solver_s += dt
        self.stats.max_query = max(self.stats.max_query, dt)
        return str(r), mdl

    def _lra_add(self, s, q):
        for g in q.gen_ids() - self._lra_ids:
            self._lra_ids.add(g)
            if W.gens[g].lo != ALL:
                s.add(self.z_atom(Poly({(g,): Fraction(1)}), W.gens[g].lo))

    def extract_model(self, m, ids):
        out = {}
        for gid in ids:
            g = W.gens[gid]
            if g.kind != "input":
                continue
            v = m.eval(self.z_gen(gid), model_completion=True)
            out[g.name] = z3_to_fraction(v)
        return out

    # ------------------------------------------------------------------------------------------
    # forking
    # ------------------------------------------------------------------------------------------
    def known(self, q: Poly):
        k = self.memo.get(q.uid)
        if k is None:
            k = static_sign(q)
        if k != ALL and k in (NEG, ZERO, POS):
            return k
        k &= self._graph_sign(q)
        if k not in (NEG, ZERO, POS):
            k &= self._iv_sign(q)
        return k

    def _uni_form(self, q):
        """(gid, a, b) if q = a*x + b"""
        t = q.t
        if len(t) > 2:
            return None
        gid = a = None
        b = Fraction(0)
        for m, c in t.items():
            if not m:
                b = c
            elif len(m) == 1 and gid is None:
                gid, a = m[0], c
            else:
                return None
        return None if gid is None else (gid, a, b)

    def _iv_of(self, gid):
        v = self.iv.get(gid)
        if v is None:
            lo = W.gens[gid].lo
            v = [None if lo & NEG else Fraction(0), not (lo & ZERO), None if lo & POS else Fraction(0), not (lo & ZERO)]
            self.iv[gid] = v
        return v

    def _iv_sign(self, q):
        u = self._uni_form(q)
        if u is None:
            return ALL
        gid, a, b = u
        lo, ls, hi, hs = self._iv_of(gid)
        r = -b / a
        k = ALL
        if lo is not None:
            if lo > r or (lo == r and ls):
                k &= POS
            elif lo == r:
                k &= POS | ZERO
        if hi is not None:
            if hi < r or (hi == r and hs):
                k &= NEG
            elif hi == r:
                k &= NEG | ZERO
        return k if a > 0 else _flip(k)

    def _iv_record(self, u, mask):
        gid, a, b = u
        v = self._iv_of(gid)
        r = -b / a
        if a < 0:
            mask = _flip(mask)
        if not mask & NEG:  # x >= r (strict if no ZERO)
            st = not (mask & ZERO)
            if v[0] is None or r > v[0]:
                v[0], v[1] = r, st
            elif r == v[0]:
                v[1] = v[1] or st
        if not mask & POS:
            st = not (mask & ZERO)
            if v[2] is None or r < v[2]:
                v[2], v[3] = r, st
            elif r == v[2]:
                v[3] = v[3] or st

    def _uni_solve(self, opt):
        """decide the path condition plus opt when everything is linear in a single input; None if not applicable"""
        if self.uni is False or self.extra:
            return None
        gid = self.uni
        ivs = None
        ne = list(self._ne) if gid is not None else []
        for q, m in opt:
            u = self._uni_form(q)
            if u is None or (gid is not None and u[0] != gid) or W.gens[u[0]].kind != "input":
                return None
            gid = u[0]
        if gid is None:
            return None
        save = list(self._iv_of(gid))
        for q, m in opt:
            u = self._uni_form(q)
            if m == NEG | POS:
                ne.append(-u[2] / u[1])
            else:
                self._iv_record(u, m)
        lo, ls, hi, hs = self.iv[gid]
        self.iv[gid] = save
        name = W.gens[gid].name
        if lo is not None and hi is not None:
            if lo > hi or (lo == hi and (ls or hs or lo in ne)):
                return "unsat", None
            if lo == hi:
                return "sat", {name: lo}
            c = [lo + (hi - lo) * f for f in _FR]
        elif lo is not None:
            c = [lo + 1 + f for f in _FR]
        elif hi is not None:
            c = [hi - 1 - f for f in _FR]
        else:
            c = list(_FR)
        for v in c:
            if v not in ne:
                return "sat", {name: v}
        return None

    def _diff_form(self, q):
        if len(q.t) != 2:
            return None
        (m1, c1), (m2, c2) = q.t.items()
        if len(m1) == 1 and len(m2) == 1 and c1 == -c2:
            return (m1[0], m2[0]) if c1 > 0 else (m2[0], m1[0])
        return None

    def _graph_sign(self, q):
        d = self._diff_form(q)
        if d is None:
            return ALL
        a, b = d
        r = ALL
        s = self._reach(b, a)  # b <= ... <= a ?
        if s == 2:
            r &= POS
        elif s == 1:
            r &= POS | ZERO
        s = self._reach(a, b)
        if s == 2:
            r &= NEG
        elif s == 1:
            r &= NEG | ZERO
        return r

    def _reach(self, a, b):
        """2 if a<b is implied by recorded difference atoms, 1 if a<=b, else 0."""
        if a not in self.edges:
            return 0
        best = {a: 1}
        todo = [a]
        while todo:
            x = todo.pop()
            for y, strict in self.edges.get(x, {}).items():
                v = 2 if (strict or best[x] == 2) else 1
                if best.get(y, 0) < v:
                    best[y] = v
                    todo.append(y)
        return best.get(b, 0)

    def _edge(self, a, b, strict):
        e = self.edges.setdefault(a, {})
        e[b] = e.get(b, False) or strict

    def record(self, q: Poly, mask):
        """add atom to the path condition"""
        self.memo[q.uid] = self.memo.get(q.uid, static_sign(q)) & mask
        self.atoms.append((q, mask))
        if self.lin_path and (q.degree() > 1 or any(W.gens[g].kind != "input" for g in q.gen_ids())):
            self.lin_path = False
        u = self._uni_form(q)
        if u is not None and W.gens[u[0]].kind == "input":
            if self.uni is None:
                self.uni = u[0]
            elif self.uni != u[0]:
                self.uni = False
            if mask == NEG | POS:
                self._ne.append(-u[2] / u[1])
            else:
                self._iv_record(u, mask)
        else:
            self.uni = False
        d = self._diff_form(q)
        if d is not None:
            a, b = d  # q = a - b
            if mask in (POS, POS | ZERO):
                self._edge(b, a, mask == POS)
            elif mask in (NEG, NEG | ZERO):
                self._edge(a, b, mask == NEG)
            elif mask == ZERO:
                self._edge(a, b, False)
                self._edge(b, a, False)

    def is_zero(self, s: Sym):
        return self.test(s, ZERO)

    def test(self, s: Sym, mask) -> bool:
        """does sign(s) lie in mask? forks when undetermined."""
        if s.sp:
            if s.sp == "nan":
                return False
            return bool(mask & (POS if s.sp == "inf" else NEG))
        p = s.num
        if p.is_const() and not s.den:
            c = p.const()
            return bool(mask & (ZERO if c == 0 else POS if c > 0 else NEG))
        sign_matters = mask not in (ZERO, NEG | POS)
        if sign_matters:
            for q, e in s.den:
                if e % 2 and self._sgn_nonzero(q) < 0:
                    mask = _flip(mask)
        if p.is_const():
            c = p.const()
            return bool(mask & (ZERO if c == 0 else POS if c > 0 else NEG))
        c, q = primitive(p)
        if c < 0:
            mask = _flip(mask)
        mono, rest = mono_content(q)
        if mono:
            i = 0
            while i < len(mono):
                j = i
                while j < len(mono) and mono[j] == mono[i]:
                    j += 1
                gp = intern(Poly({(mono[i],): Fraction(1)}))
                k = self.known(gp)
                if k & ZERO and self._atom(gp, ZERO):
                    return bool(mask & ZERO)
                if sign_matters and (j - i) % 2 and self._sgn_nonzero(gp) < 0:
                    mask = _flip(mask)
                i = j
            if rest.is_const():
                return bool(mask & (POS if rest.const() > 0 else NEG))
            c2, q = primitive(rest)
            if c2 < 0:
                mask = _flip(mask)
        q2 = self._sqrt_reduce(q)
        if q2 is not None:
            return self.test(Sym(q2), mask)
        return self._atom(q, mask)

    def _sqrt_reduce(self, q):
        """sign(q) == sign(returned poly) for q = a*s1 - b*s2 or a*s - b (a,b>0 const)."""
        if len(q.t) != 2:
            return None
        (m1, c1), (m2, c2) = q.t.items()
        if (c1 > 0) == (c2 > 0):
            return None
        sq = W.sqrt_ids

        def side(m):
            if m == ():
                return core.P1
            if len(m) == 1 and m[0] in sq:
                return sq[m[0]]
            if len(m) == 1 and not (W.gens[m[0]].lo & NEG):
                return Poly({(m[0], m[0]): Fraction(1)})
            return None

        if not ((len(m1) == 1 and m1[0] in sq) or (len(m2) == 1 and m2[0] in sq)):
            return None
        a, b = side(m1), side(m2)
        if a is None or b is None:
            return None
        r = psub(pscale(a, c1 * c1), pscale(b, c2 * c2))
        return r if c1 > 0 else pneg(r)

    def _sgn_nonzero(self, q):
        k = self.known(q) & ~ZERO
        if k == POS:
            return 1
        if k == NEG:
            return -1
        q2 = self._sqrt_reduce(q)
        if q2 is not None:
            return 1 if self.test(Sym(q2), POS) else -1
        return 1 if self._atom(q, POS, exclude_zero=True) else -1

    def _atom(self, q, mask, exclude_zero=False):
        k = self.known(q)
        if exclude_zero:
            k &= ~ZERO
        i = k & mask
        if i == k:
            return True
        if i == 0:
            return False
        idx = self.fork([[(q, i)], [(q, k & ~mask)]])
        return idx == 0

    def fork(self, options):
        """options: list of atom lists. Returns the chosen index (explores all feasible ones)."""
        n = len(options)
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(c)
            for q, m in options[c]:
                self.record(q, m)
            return c
        self.stats.forks += 1
        if len(self.decisions) >= self.max_forks:
            raise PathLimit("too many forks")
        chosen = None
        if self.model is not None:
            for i, opt in enumerate(options):
                ok = True
                for q, m in opt:
                    s = self.eval_sign(q)
                    if s == 0 or not (s & m):
                        ok = False
                        break
                if ok:
                    chosen = i
                    break
        alts = []
        order = list(range(n)) if chosen is None else [chosen] + [i for i in range(n) if i != chosen]
        unknown = []
        for i in order:
            if i == chosen:
                continue
            r, mdl = self.feasible(options[i])
            if r == "unsat":
                continue
            if r == "sat":
                if chosen is None:
                    chosen = i
                    self.model = mdl
                    self._val = {}
                else:
                    alts.append((i, mdl))
            else:
                self.stats.unknown_feas += 1
                unknown.append(i)
        if chosen is None:
            if not unknown:
                raise Infeasible()
            chosen = unknown.pop(0)
            self.model = None
            self._val = {}
        for i in unknown:
            alts.append((i, None))
        if alts and FORKS:
            import traceback
            f = [f"{x.filename.rsplit('/', 1)[-1]}:{x.lineno}" for x in traceback.extract_stack() if "/robpy/" in x.filename or "/harness/" in x.filename or "/scipy/" in x.filename]
            with open(FORKS, "a") as fh:
                fh.write(f"{len(alts)} {[m is None for _, m in alts]} {' '.join(f[-6:])}\n")
        for i, mdl in alts:
            self.pending.append((self.decisions + [i], mdl))
        self.decisions.append(chosen)
        for q, m in options[chosen]:
            self.record(q, m)
        self.pos = len(self.prefix) + 1
        return chosen

    def choose(self, n):
        """nondeterministic choice among n alternatives without constraints"""
        if n <= 1:
            return 0
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(c)
            return c
        for i in range(1, n):
            self.pending.append((self.decisions + [i], dict(self.model) if self.model else self.model))
        self.decisions.append(0)
        self.pos = len(self.prefix) + 1
        return 0

    def assume(self, s: Sym, mask):
        """restrict the path to sign(s) in mask (no fork)."""
        if s.sp:
            if not self.test(s, mask):
                raise Infeasible()
            return
        p = s.num
        for q, e in s.den:
            if e % 2:
                p = pmul(p, q)
        if p.is_const():
            c = p.const()
            if not mask & (ZERO if c == 0 else POS if c > 0 else NEG):
                raise Infeasible()
            return
        c, q = primitive(p)
        if c < 0:
            mask = _flip(mask)
        k = self.known(q)
        if k & mask == k:
            return
        if k & mask == 0:
            raise Infeasible()
        self.record(q, k & mask)
        if self.model is not None and self.pos >= len(self.prefix):
            sg = self.eval_sign(q)
            if not (sg & mask):
                strict = [(p, m & ~ZERO if m in (NEG | ZERO, POS | ZERO) else m) for p, m in self.atoms]
                u = self.univ.decide([])
                if u is not None:
                    r, mdl = u
                else:
                    r, mdl = self.solve(strict, ms=self.feas_ms)
                    if r != "sat":
                        r, mdl = self.solve(self.atoms, ms=self.feas_ms)
                if r == "unsat":
                    raise Infeasible()
                self.model = mdl
                self._val = {}

    # ------------------------------------------------------------------------------------------
    # functions
    # ------------------------------------------------------------------------------------------
    def sqrt(self, s: Sym) -> Sym:
        if s.is_const():
            c = s.num.const()
            if c < 0:
                return NAN
            if c == 0:
                return S0
            r = core.frac_sqrt(c)
            if r is not None:
                return Sym(pconst(r))
            if core.PREC:
                k = 2 * core.PREC + 2 * (max(0, c.denominator.bit_length() - c.numerator.bit_length()) // 2)
                return Sym(pconst(Fraction(math.isqrt((c.numerator << k) // c.denominator), 1 << (k // 2))))
            if max(c.numerator.bit_length(), c.denominator.bit_length()) > 40 and not self.exact_const_sqrt:
                # inexact constants (floats): keep a rational approximation, as the program does
                return Sym.of(math.sqrt(c))
        else:
            # negative argument?
            k = self._quick_known(s)
            if k & NEG and self.test(s, NEG):
                return NAN
        num = s.num
        out = S1
        den_rest = core.P1
        for q, e in s.den:
            if e // 2:
                r = Sym(core.P1, ((q, e // 2),))
                out = out * (r if self.test(Sym(q), POS | ZERO) else -r)
            if e % 2:
                # 1/sqrt(q) = sqrt(q*..)/|q|
                den_rest = pmul(den_rest, q)
                r = Sym(core.P1, ((q, 1),))
                out = out * (r if self.test(Sym(q), POS | ZERO) else -r)
        num = pmul(num, den_rest)
        if num.is_const():
            c, q = num.const(), core.P1
        else:
            c, q = primitive(num)
            if c < 0:
                c, q = -c, intern(pneg(q))
        # constant part
        m = c.numerator * c.denominator
        out = out * Sym(pconst(Fraction(1, c.denominator)))
        sp, m = core._square_part(m)
        out = out * Sym(pconst(Fraction(sp)))
        # monomial squares
        if not q.is_const():
            mono, rest = mono_content(q)
            odd = []
            i = 0
            while i < len(mono):
                j = i
                while j < len(mono) and mono[j] == mono[i]:
                    j += 1
                for _ in range((j - i) // 2):
                    out = out * abs(gsym(W.gens[mono[i]]))
                if (j - i) % 2:
                    odd.append(mono[i])
                i = j
            if len(odd) < len(mono):
                q = pmul(rest, Poly({tuple(odd): Fraction(1)}))
                if q.is_const() and q.const() == 1:
                    q = core.P1
                else:
                    c3, q = primitive(q)
                    if c3 < 0:
                        q = intern(pneg(q))
        if q.is_const():
            if m == 1:
                return out
            if core.PREC:
                return out * self.sqrt(Sym(pconst(Fraction(m))))
            arg = intern(pconst(Fraction(m)))
            g = W.gen(("sqrt", arg.key()), "sqrt", f"sqrt({m})", arg, POS)
            return out * gsym(g)
        if len(q.t) <= 60:
            r = psqrt_exact(q)
            if r is not None:
                if m != 1 and core.PREC:
                    out = out * self.sqrt(Sym(pconst(Fraction(m))))
                elif m != 1:
                    arg = intern(pconst(Fraction(m)))
                    g = W.gen(("sqrt", arg.key()), "sqrt", f"sqrt({m})", arg, POS)
                    out = out * gsym(g)
                return out * abs(Sym(r))
        arg = intern(pscale(q, Fraction(m)))
        sg = static_sign(arg)
        g = W.gen(("sqrt", arg.key()), "sqrt", "sqrt#%d" % len(W.gens), arg, POS if sg == POS else POS | ZERO)
        gs = gsym(g)
        # propagate a known-nonzero argument
        kn = self.memo.get(primitive(q)[1].uid)
        if kn is not None and not (kn & ZERO):
            gp = intern(gs.num)
            self.memo[gp.uid] = POS
        return out * gs

    exact_const_sqrt = False

    def _quick_known(self, s: Sym):
        """sound sign mask of s from static/memo information only"""
        c, q = primitive(s.num) if not s.num.is_const() else (s.num.const(), None)
        k = self.known(q) if q is not None else POS
        if c < 0:
            k = _flip(k)
        for d, e in s.den:
            if e % 2:
                kd = self.known(d) & ~ZERO
                if kd == NEG:
                    k = _flip(k)
                elif kd != POS:
                    return ALL
        return k

    def floor(self, s: Sym) -> Sym:
        if s.sp:
            return s
        if s.is_const():
            return Sym.of(math.floor(s.num.const()))
        # guided: evaluate, then fork on the integer value within a bounded window
        lo, hi = self.floor_range
        for k in range(lo, hi + 1):
            if self.test(s - (k + 1), NEG):
                return Sym.of(k)
        raise Unsupported("floor out of range")

    floor_range = (-2, 12)

    def rint(self, s):
        if s.sp:
            return s
        if s.is_const():
            return Sym.of(round(s.num.const()))
        f = self.floor(s)
        d = s - f
        if self.test(d - Fraction(1, 2), NEG):
            return f
        if self.test(d - Fraction(1, 2), POS):
            return f + 1
        return f if int(f) % 2 == 0 else f + 1

    def uf(self, name, s: Sym) -> Sym:
        from . import ufs

        return ufs.apply(self, name, s)

    def pow(self, b: Sym, e: Sym) -> Sym:
        from . import ufs

        return ufs.power(self, b, e)

    # ------------------------------------------------------------------------------------------
    # assertions
    # ------------------------------------------------------------------------------------------
    def check_cond(self, cond: Cond, margins=(None,)):
        """Decide whether `cond` holds on every input following this path.
        returns ('holds'|'violated'|'unknown', model)"""
        self.stats.checks += 1
        self._last_gids = set()
        z = z3.simplify(self.z_cond(cond))
        if z3.is_true(z):
            self.stats.check_trivial += 1
            return "holds", None
        r = "unknown"
        if self.lin_path and not self.extra and all(W.gens[g].kind == "input" for g in self._last_gids):
            r, mdl = self._check_lra(z3.Not(z))
        self.last_models = []
        if r == "unknown":
            u = self.univ.check(cond, self.sign_poly)
            if u is not None:
                r = "unsat" if u[0] == "holds" else "sat"
                if r == "sat":
                    self.last_models = u[1]
                    mdl = u[1][0]
        if r == "unknown":
            r, mdl = self.solve(self.atoms, [z3.Not(z)], self._last_gids, ms=self.check_ms)
        if r == "unsat":
            self.stats.check_unsat += 1
            return "holds", None
        if r == "unknown":
            r, mdl = self.solve_cvc5(self.atoms, [z3.Not(z)], self._last_gids, ms=self.check_ms)
            if r == "unsat":
                self.stats.check_unsat += 1
                return "holds", None
        if r == "unknown":
            self.stats.unknown_check += 1
            return "unknown", None
        return "violated", mdl

    def solve_cvc5(self, atoms, extra_z, gids, ms):
        """second opinion through SMT-LIB on z3's unknowns"""
        try:
            import cvc5
        except Exception:
            return "unknown", None
        t0 = time.time()
        ids = set(gids)
        for p, _ in atoms:
            ids |= p.gen_ids()
        ids = self.closure_gens(ids)
        s = z3.Solver()
        s.add(*[self.z_atom(p, m) for p, m in atoms], *extra_z, *self.extra, *self.gen_axioms(ids))
        txt = s.to_smt2()
        try:
            tm = cvc5.TermManager()
            slv = cvc5.Solver(tm)
            slv.setOption("tlimit-per", str(int(ms)))
            slv.setOption("produce-models", "true")
            slv.setLogic("QF_NIRA")
            par = cvc5.InputParser(slv)
            par.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt.replace("(check-sat)", ""), "q")
            sm = par.getSymbolManager()
            while True:
                cmd = par.nextCommand()
                if cmd.isNull():
                    break
                cmd.invoke(slv, sm)
            r = slv.checkSat()
            res = "unsat" if r.isUnsat() else "unknown"
        except Exception:
            res = "unknown"
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t0
        return res, None

    def robust_model(self, atoms, extra_z, gids, ms=3000):
        """models with margins on strict atoms, preferred for native replay; yields models"""
        for eps in (Fraction(1, 10), Fraction(1, 1000), Fraction(1, 10**6), None):
            cons = []
            for p, m in atoms:
                if eps is None or m in (ZERO, NEG | ZERO, POS | ZERO, NEG | POS):
                    continue
                e = self.z_poly(p)
                cons.append(e >= z3.RealVal(str(eps)) if m == POS else e <= -z3.RealVal(str(eps)))
            r, mdl = self.solve(atoms, list(extra_z) + cons, gids, ms=ms)
            if r == "sat":
                yield mdl


def generic_value(name, lo=ALL):
    """deterministic "generic position" value for an input no constraint mentions yet"""
    h = zlib.crc32(name.encode())
    v = Fraction(2 * (h % 97) + 1, 16) + Fraction((h >> 8) % 89, 1024)
    if lo & NEG:
        v -= 6
    return v


def complete_model(m):
    m = dict(m or {})
    for g in W.gens:
        if g.kind == "input" and g.name not in m:
            m[g.name] = generic_value(g.name, g.lo)
    return m


def _prod(it):
    r = Fraction(1)
    for x in it:
        r *= x
    return r


def z3_to_fraction(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return Fraction(0)
