"""Obligation discharge: case splitting on conditionals, ring normal forms, SMT."""
from __future__ import annotations
from fractions import Fraction
import itertools
import time
import numpy as np
import z3

from . import terms as tm, smt
from .terms import T
from .ring import Ring, Restart, TooBig, Undefined, R, Poly, p_scale

MAXLEAF = 4096


class Refuted(Exception):
    def __init__(self, env, why):
        self.env, self.why = env, why


class Unproved(Exception):
    def __init__(self, why, leaf=None):
        self.why, self.leaf = why, leaf


class Samples:
    """A pool of points satisfying the top-level requires (vectorised)."""

    def __init__(self, pool: dict):
        self.pool = {k: np.asarray(v, dtype=float) for k, v in pool.items()}
        self.n = len(next(iter(self.pool.values()))) if self.pool else 1

    def filtered(self, subs, hyps, want=24):
        """values of pool vars (substituted vars recomputed) at points where hyps hold"""
        env = dict(self.pool)
        for v, t in subs:
            miss = [x for x in tm.free_vars(t) if x not in env]
            if miss:
                continue
            try:
                env[v] = np.broadcast_to(np.asarray(tm.evaluate_np([t], env)[0], dtype=float), (self.n,))
            except (KeyError, ValueError):
                pass
        ok = np.ones(self.n, dtype=bool)
        for h in hyps:
            if any(x not in env for x in tm.free_vars(h)):
                continue
            try:
                ok &= np.broadcast_to(np.asarray(tm.evaluate_np([h], env)[0], dtype=bool), (self.n,))
            except KeyError:
                pass
        idx = np.nonzero(ok)[0][:want]
        return {k: v[idx] for k, v in env.items()} if len(idx) else {}


class Leaf:
    __slots__ = ("terms", "hyps", "subs", "samples", "ring", "zeroed", "split")


class Prover:
    def __init__(self, hyps, samples: Samples, z3ms=3000, deadline=None):
        self.hyps = [tm.lift_bool(h) for h in hyps]
        self.samples = samples
        self.z3ms = z3ms
        self.deadline = deadline
        self.leaves = 0
        self._rings = {}

    # ------------------------------------------------------------ case splitting
    def leaves_of(self, ts, extra=(), subs=()):
        """enumerate feasible ite-free cases of the list ts"""
        stack = [(list(ts), list(self.hyps) + list(extra), list(subs))]
        while stack:
            if self.deadline and time.time() > self.deadline:
                raise Unproved("time limit")
            ts_, hyps, subs_ = stack.pop()
            atom = self._pick(ts_, hyps)
            if atom is None:
                self.leaves += 1
                if self.leaves > MAXLEAF:
                    raise Unproved("too many cases")
                lf = Leaf()
                lf.terms, lf.hyps, lf.subs = ts_, hyps, subs_
                lf.samples = self.samples.filtered(subs_, hyps)
                lf.ring = None
                yield lf
                continue
            # decide by entailment if the samples are one-sided
            sm = self.samples.filtered(subs_, hyps, want=200)
            seen = None
            if sm and all(v in sm for v in tm.free_vars(atom)):
                vals = np.broadcast_to(np.asarray(tm.evaluate_np([atom], sm)[0]), (len(next(iter(sm.values()))),))
                if vals.all():
                    seen = True
                elif not vals.any():
                    seen = False
            branches = []
            for truth in (True, False):
                lit = atom if truth else tm.not_(atom)
                if syntactically_false(lit):
                    continue
                if seen is not None and seen != truth or seen is None and not sm:
                    if not self._feasible(hyps + [lit], subs_, sm):
                        continue
                branches.append((truth, lit))
            for truth, lit in branches:
                mp = {atom: tm.TT if truth else tm.FF}
                nts = tm.subst(ts_, mp)
                nh = [x for x in tm.subst(hyps, mp) if x is not tm.TT]
                if tm.FF in nh:
                    continue
                nh = nh + [lit]
                nsubs = list(subs_)
                eqn = self._equation(nh, lit)
                if eqn is not None:
                    v, e = eqn
                    nts = tm.subst(nts, {v: e})
                    nh = [x for x in tm.subst(nh, {v: e}) if x is not tm.TT]
                    nsubs = [(a, tm.subst(b, {v: e})) for a, b in nsubs] + [(v, e)]
                    if tm.FF in nh:
                        continue
                stack.append((nts, nh, nsubs))

    def _pick(self, ts, hyps):
        for t in tm.topo(*ts):
            if t.op == "ite":
                for s in tm.topo(t.args[0]):
                    if s.op in ("lt", "le", "eq", "bv") and not s.hasite:
                        return s
        return None

    def _ring(self, hyps, samples, angle=None):
        return Ring(hyps=[h for h in hyps if not h.hasite], samples=samples, z3ms=self.z3ms, angle_den=angle)

    def _feasible(self, hyps, subs, sm):
        try:
            return with_restart(lambda ang: smt.feasible(self._ring(hyps, sm, ang), hyps, min(self.z3ms, 700)))
        except (TooBig, Undefined, ZeroDivisionError):
            return True

    def _equation(self, hyps, lit):
        """detect that the literals pin down an equation that can be solved for a variable"""
        cand = []
        if lit.op == "eq":
            cand.append((lit.args[0], lit.args[1]))
        base = lit.args[0] if lit.op == "not" else lit
        if base.op in ("lt", "le") and not base.hasite:
            a, b = base.args
            strict_excluded = lit.op == "not"
            # known: weak inequality between a and b in some direction; look for the opposite one
            def weak(l):
                # returns list of (x,y) meaning x<=y
                if l.op == "le":
                    return [(l.args[0], l.args[1])]
                if l.op == "not" and l.args[0].op == "lt":
                    return [(l.args[0].args[1], l.args[0].args[0])]
                return []
            mine = weak(lit)
            for h in hyps:
                if h is lit:
                    continue
                for x, y in weak(h):
                    for x2, y2 in mine:
                        if x is y2 and y is x2:
                            cand.append((x, y))
                        else:
                            d1, d2 = x - y, y2 - x2
                            if d1 is d2:
                                cand.append((x, y))
        for a, b in cand:
            d = a - b
            for v in tm.free_vars(d):
                if v.op != "v":
                    continue
                try:
                    dd = tm.diff(d, v)
                except ValueError:
                    continue
                if dd.op == "q" and dd.val != 0:
                    e = v - d * tm.q(1 / dd.val)
                    if v in tm.free_vars(e):
                        d0 = tm.subst(d, {v: tm.ZERO})
                        e = tm.mul(tm.q(-1 / dd.val), d0)
                    if v not in tm.free_vars(e):
                        return v, e
        return None

    # ------------------------------------------------------------ goals
    def prove_equal(self, a: T, b: T, label=""):
        for lf in self.leaves_of([a, b]):
            self._eq_leaf(lf, label)

    def _eq_leaf(self, lf, label):
        a, b = lf.terms
        if a is b:
            return

        def go(ang):
            rg = self._ring(lf.hyps, lf.samples, ang)
            d = rg.sub(rg.conv(a), rg.conv(b))
            return rg, d
        try:
            rg, d = with_restart(go)
        except Undefined as u:
            if a.op in ("inf", "nan") and a is b:
                return
            if not self._feasible(lf.hyps, lf.subs, lf.samples):
                return
            raise Unproved(f"{label}: undefined value ({u}) on a feasible path", lf)
        except TooBig:
            raise Unproved(f"{label}: normal form too large", lf)
        except ZeroDivisionError:
            if not self._feasible(lf.hyps, lf.subs, lf.samples):
                return
            raise Unproved(f"{label}: division by zero on a feasible path", lf)
        if rg.is_zero(d):
            return
        if not self._feasible(lf.hyps, lf.subs, lf.samples):
            return
        # maybe the hypotheses force it (SMT)
        if len(d.num) <= 60:
            try:
                enc = smt.Enc(rg)
                g = enc.poly(d.num) == 0
                fs = smt._ctx_formulas(rg, enc, lf.hyps)
                enc.flush()
                r, _ = smt.check(fs + enc.cons + [z3.Not(g)], min(self.z3ms, 2500))
                if r == z3.unsat:
                    return
            except (TooBig, Restart, Undefined):
                pass
        # a variable forced to zero by the path (e.g. alpha > 0 and alpha chi^2 <= 0)
        fv = [v for v in tm.free_vars(a - b) if v.op == "v"]
        if len(fv) <= 8 and not getattr(lf, "zeroed", False):
            hs = [h for h in lf.hyps if not h.hasite and polynomial([h])]
            for v in fv if hs else []:
                try:
                    yes = with_restart(lambda ang: smt.entails(self._ring(hs, {}, ang), hs, tm.eq(v, tm.ZERO), 1000))
                except (TooBig, Undefined, ZeroDivisionError):
                    continue
                if yes:
                    z = {v: tm.ZERO}
                    try:
                        l2 = Leaf()
                        l2.terms = [tm.subst(a, z), tm.subst(b, z)]
                        l2.hyps = [h for h in (tm.subst(h, z) for h in lf.hyps) if h is not tm.TT]
                        l2.subs, l2.samples = lf.subs, {}
                    except ZeroDivisionError:
                        continue
                    l2.zeroed = True
                    return self._eq_leaf(l2, label)
        # roots of even powers of a variable of unknown sign: split on the sign
        done = getattr(lf, "split", ())
        for v in even_root_vars(a, b):
            if v in done or len(done) >= 3:
                continue
            for extra, z in ((tm.lt(tm.ZERO, v), None), (tm.lt(v, tm.ZERO), None), (None, {v: tm.ZERO})):
                l2 = Leaf()
                try:
                    l2.terms = [a, b] if z is None else [tm.subst(a, z), tm.subst(b, z)]
                    l2.hyps = list(lf.hyps) if z is None else [tm.subst(h, z) for h in lf.hyps]
                except ZeroDivisionError:
                    l2.terms, l2.hyps = [a, b], list(lf.hyps)
                    extra = tm.eq(v, tm.ZERO)
                l2.hyps = [h for h in l2.hyps if h is not tm.TT] + ([extra] if extra is not None else [])
                if tm.FF in l2.hyps:
                    continue
                l2.subs, l2.samples, l2.split = lf.subs, self.samples.filtered(lf.subs, l2.hyps), done + (v,)
                self._eq_leaf(l2, label)
            return
        raise Unproved(f"{label}: residual {rg.show_poly(d.num)}", lf)

    def prove(self, goal: T, label="", extra=()):
        """prove a boolean goal under the hypotheses"""
        goal = tm.lift(goal)
        if goal is tm.TT:
            return
        if shallow(self.hyps + list(extra), goal):
            self.leaves += 1
            return
        if goal.op == "and":
            for g in goal.args:
                self.prove(g, label, extra)
            return
        if goal.op == "eq" and not goal.args[0].isb:
            for lf in self.leaves_of(list(goal.args), extra):
                self._eq_leaf(lf, label)
            return
        # make ites inside comparisons visible to the splitter
        for lf in self._bool_leaves(goal, extra):
            self._bool_leaf(lf, label)

    def _bool_leaves(self, goal, extra):
        for lf in self.leaves_of([goal], extra):
            yield lf

    def _bool_leaf(self, lf, label):
        g = lf.terms[0]
        if g is tm.TT:
            return

        def go(ang):
            rg = self._ring(lf.hyps, lf.samples, ang)
            if self._abstract_entails(rg, lf.hyps, g):
                return True
            return smt.entails(rg, lf.hyps, g, self.z3ms)
        try:
            ok = with_restart(go)
        except (TooBig, Undefined, ZeroDivisionError) as e:
            if not self._feasible(lf.hyps, lf.subs, lf.samples):
                return
            raise Unproved(f"{label}: {type(e).__name__} {e}", lf)
        if not ok:
            raise Unproved(f"{label}: not entailed: {tm.show(g, 6)[:400]}", lf)

    def _abstract_entails(self, rg, hyps, g):
        """propositional + sign reasoning with canonical polynomials as opaque reals"""
        table = {}

        def pvar(p):
            k = frozenset(p.items())
            if k not in table:
                table[k] = z3.Real(f"p{len(table)}")
            return table[k]

        def signprod(r):
            """z3 expr with the sign of r, using opaque factor variables"""
            if not r.num:
                return z3.RealVal(0)
            fac, c = rg.factor_num(r.num)
            c = c * r.c
            e = z3.RealVal(1 if c > 0 else -1)
            lst = list(fac) + [(rg.factors[f], k) for f, k in r.den.items()]
            for f, k in lst:
                s = rg.psign(f)
                if s is not None:
                    if s < 0 and k % 2:
                        e = -e
                    continue
                v = pvar(f)
                for _ in range(1 if k % 2 else 2):
                    e = e * v
            return e

        def form(t):
            op = t.op
            if op == "tt":
                return z3.BoolVal(True)
            if op == "ff":
                return z3.BoolVal(False)
            if op == "bv":
                return z3.Bool(f"b_{t.val}")
            if op == "and":
                return z3.And([form(x) for x in t.args])
            if op == "or":
                return z3.Or([form(x) for x in t.args])
            if op == "not":
                return z3.Not(form(t.args[0]))
            d = rg.sub(rg.conv(t.args[0]), rg.conv(t.args[1]))
            e = signprod(d)
            return {"lt": e < 0, "le": e <= 0, "eq": e == 0}[op]
        try:
            fg = form(g)
            fs = []
            for h in hyps:
                if h.hasite:
                    continue
                fs.append(form(h))
        except (TooBig, Undefined, ZeroDivisionError):
            return False
        r, _ = smt.check(fs + [z3.Not(fg)], 1500, nlsat=False)
        return r == z3.unsat

    # ------------------------------------------------------------ definedness
    def prove_defined(self, ts, label=""):
        """every partial operation on a selected path is applied inside its domain"""
        self._def_seen = set()
        self._def_cnt = 0
        for t in ts:
            self._defined(t, (), label)
        return self._def_cnt

    def _defined(self, t, path, label):
        """walk the region of t not guarded by an ite; recurse under the guard for branches"""
        seen = set()
        stack = [t]
        while stack:
            s = stack.pop()
            if s.id in seen:
                continue
            seen.add(s.id)
            if s.op == "ite":
                c, a, b = s.args
                stack.append(c)
                for lit, br in ((c, a), (tm.not_(c), b)):
                    if not br.args and br.op not in ("nan", "inf"):
                        continue
                    key = (br.id, tuple(sorted(x.id for x in path + (lit,))))
                    if key in self._def_seen or lit in [tm.not_(x) for x in path]:
                        continue
                    self._def_seen.add(key)
                    self._defined(br, path if lit in path else path + (lit,), label)
                continue
            stack.extend(s.args)
            c = dom(s)
            if c is None or c is tm.TT:
                continue
            key = ("d", c.id, path)
            if key in self._def_seen:
                continue
            self._def_seen.add(key)
            # the operation is fine if it is already fine on a shorter path
            if any(("ok", c.id, path[:k]) in self._def_seen for k in range(len(path))):
                continue
            self._def_cnt += 1
            if c.op == "le" and c.args[0] is tm.ZERO and nonneg(c.args[1]):
                pass
            else:
                # conditionals inside the argument or the path are split
                wit = [c] + list(path)
                for lf in self.leaves_of(wit):
                    g, *pc = lf.terms
                    if tm.FF in pc:
                        continue
                    lf.hyps = lf.hyps + [x for x in pc if x is not tm.TT]
                    if g is tm.TT:
                        continue
                    lf.samples = self.samples.filtered(lf.subs, lf.hyps)
                    self._def_leaf(lf, g, label)
            self._def_seen.add(("ok", c.id, path))

    def _general_entails(self, lf, c):
        g = generalise(c, lf.hyps)
        if g is None:
            return False
        c2, h2, mp = g
        fv = set(tm.free_vars(c2))
        h2 = [h for h in h2 if set(tm.free_vars(h)) & fv]
        sm = {}
        if lf.samples:
            sm = dict(lf.samples)
            n = len(next(iter(sm.values())))
            for k, v in mp.items():
                try:
                    sm[v] = np.broadcast_to(np.asarray(tm.evaluate_np([k], lf.samples)[0], dtype=float), (n,))
                except KeyError:
                    pass
        try:
            return with_restart(lambda ang: smt.entails(self._ring(h2, sm, ang), h2, c2, 2500))
        except (TooBig, Undefined, ZeroDivisionError):
            return False

    def _def_leaf(self, lf, c, label):
        if c.op == "le" and c.args[0] is tm.ZERO and nonneg(c.args[1]):
            return
        def go(ang):
            rg = self._ring(lf.hyps, lf.samples, ang)
            if c.op == "not" and c.args[0].op == "eq":
                r = rg.sub(rg.conv(c.args[0].args[0]), rg.conv(c.args[0].args[1]))
                if not r.num:
                    return False
                fac, _ = rg.factor_num(r.num)
                left = [f for f, e in fac if rg.psign(f) is None]
                if not left:
                    return True
                return all(smt.zero_impossible(rg, lf.hyps, f, self.z3ms) for f in left)
            if self._abstract_entails(rg, lf.hyps, c):
                return True
            return smt.entails(rg, lf.hyps, c, self.z3ms)
        if self._general_entails(lf, c):
            return
        try:
            ok = with_restart(go)
        except (TooBig, Undefined, ZeroDivisionError) as e:
            ok = False
        if not ok:
            if not self._feasible(lf.hyps, lf.subs, lf.samples):
                return
            raise Unproved(f"{label}: operation may leave its domain: requires {tm.show(c, 6)[:300]}", lf)


def even_root_vars(*ts):
    out = []
    for s in tm.topo(tm.add(*ts)):
        if s.op == "pow" and s.val.denominator % 2 == 0:
            b = s.args[0]
            for x in (b.args if b.op == "*" else (b,)):
                if x.op == "pow" and x.val.denominator == 1 and x.val.numerator % 2 == 0 and x.args[0].op == "v" and x.args[0] not in out:
                    out.append(x.args[0])
    return out


def polynomial(hs):
    return all(s.op not in ("fn", "ite") and not (s.op == "pow" and (s.val.denominator != 1 or s.val < 0)) for h in hs for s in tm.topo(h))


def shallow(hyps, goal, ms=1500):
    """linear arithmetic + propositional reasoning; products, powers and function applications are opaque constants
    (one per hash-consed term), so this can only prove valid goals"""
    memo = {}
    goal = tm.lift_bool(goal)

    def enc(t):
        for s in tm.topo(t):
            if s.id in memo:
                continue
            a = [memo[x.id] for x in s.args]
            op = s.op
            if op == "q":
                r = z3.RealVal(str(s.val))
            elif op == "+":
                r = z3.Sum(a)
            elif op == "*" and s.args[0].op == "q" and len(s.args) > 1:
                k = s.args[1:]
                if len(k) == 1:
                    r = a[0] * a[1]
                else:
                    r = a[0] * z3.Real("m_" + "_".join(str(x.id) for x in sorted(k, key=lambda x: x.id)))
            elif op == "*":
                r = z3.Real("m_" + "_".join(str(x.id) for x in sorted(s.args, key=lambda x: x.id)))
            elif op == "ite":
                r = z3.If(a[0], a[1], a[2])
            elif op in ("lt", "le", "eq"):
                r = {"lt": lambda: a[0] < a[1], "le": lambda: a[0] <= a[1], "eq": lambda: a[0] == a[1]}[op]()
            elif op == "and":
                r = z3.And(a)
            elif op == "or":
                r = z3.Or(a)
            elif op == "not":
                r = z3.Not(a[0])
            elif op == "tt":
                r = z3.BoolVal(True)
            elif op == "ff":
                r = z3.BoolVal(False)
            elif s.isb:
                r = z3.Bool(f"b_{s.id}")
            else:
                if op in ("inf", "nan"):
                    raise ValueError
                r = z3.Real(f"t_{s.id}")
            memo[s.id] = r
        return memo[t.id]
    try:
        if len(tm.subterms(goal, *hyps)) > 4000:
            return False
        fs = [enc(h) for h in hyps] + [z3.Not(enc(goal))]
    except ValueError:
        return False
    r, _ = smt.check(fs, ms, nlsat=False)
    return r == z3.unsat


def generalise(c, hyps):
    """replace shared compound subterms of c by fresh variables (a stronger goal)"""
    parents = {}
    for s in tm.topo(c):
        for a in set(s.args):
            parents.setdefault(a, set()).add(s)
    cand = [s for s in tm.topo(c) if s.op == "+" and
            (len(parents.get(s, ())) >= 2 or any(p.op == "pow" and p.val == 2 for p in parents.get(s, ())))]
    if not cand:
        return None
    mp = {}
    for i, s in enumerate(cand):
        mp[s] = tm.var(f"gen!{i}")
    c2 = tm.subst(c, mp)
    h2 = tm.subst(list(hyps), mp) if hyps else []
    return c2, h2, mp


def nonneg(t, depth=30):
    """syntactically non-negative wherever defined"""
    if depth == 0:
        return False
    if t.op == "q":
        return t.val >= 0
    if t is tm.PI:
        return True
    if t.op == "pow":
        if t.val.denominator % 2 == 0:
            return True
        return t.val.numerator % 2 == 0 or nonneg(t.args[0], depth - 1)
    if t.op == "+":
        return all(nonneg(a, depth - 1) for a in t.args)
    if t.op == "*":
        return all(nonneg(a, depth - 1) for a in t.args)
    if t.op == "fn":
        return t.val in ("exp", "cosh")
    return False


def syntactically_false(lit):
    if lit.op == "lt" and lit.args[1] is tm.ZERO:
        x = lit.args[0]
        if nonneg(x):
            return True
        if x.op == "fn" and x.val == "atan2" and nonneg(x.args[0]):
            return True
        if x.op == "fn" and x.val in ("acos",):
            return True
    return False


def dom(s):
    """local definedness condition of the head symbol"""
    if s.op == "pow":
        b = s.args[0]
        if b.op == "q" and b.val > 0 or b is tm.PI:
            return None
        if s.val.denominator == 1:
            if s.val < 0:
                return tm.not_(tm.eq(b, tm.ZERO))
            return None
        if s.val.denominator % 2 == 0 or True:
            return tm.lt(tm.ZERO, b) if s.val < 0 else tm.le(tm.ZERO, b)
    if s.op == "fn":
        a = s.args[0] if s.args else None
        if s.val == "log":
            return tm.lt(tm.ZERO, a)
        if s.val in ("acos", "asin"):
            return tm.and_(tm.le(tm.MONE, a), tm.le(a, tm.ONE))
        if s.val == "acosh":
            return tm.le(tm.ONE, a)
        if s.val == "atanh":
            return tm.and_(tm.lt(tm.MONE, a), tm.lt(a, tm.ONE))
    if s.op in ("nan", "inf"):
        return tm.FF
    return None


def with_restart(f):
    ang = {}
    for _ in range(12):
        try:
            return f(ang)
        except Restart:
            continue
    raise TooBig()
