"""z3 back end: sign / entailment queries over ring atoms."""
from __future__ import annotations
from fractions import Fraction
import math
import time
import z3
from . import terms as tm
from .ring import BITS, MASK, Poly, R, Restart, TooBig, Undefined

STATS = {"queries": 0, "time": 0.0, "unsat": 0, "sat": 0, "unknown": 0}


class Enc:
    def __init__(self, ring, light=False):
        self.ring = ring
        self.light = light      # big polynomials become opaque reals (sound for unsat answers)
        self.opq = {}
        self.z = {}
        self.done = set()
        self.todo = []
        self.cons = []
        self.hasint = False
        self.bools = {}
        self.aux = 0

    def atom(self, i):
        if i not in self.z:
            self.z[i] = z3.Real(f"a{i}")
            self.todo.append(i)
        return self.z[i]

    def poly(self, p):
        if self.light and len(p) > 4:
            g = 0
            for c in p.values():
                g = math.gcd(g, c)
            if p[max(p)] < 0:
                g = -g
            k = frozenset((m, c // g) for m, c in p.items())
            v = self.opq.setdefault(k, z3.Real(f"o{len(self.opq)}"))
            return v * g
        terms = []
        for m, c in p.items():
            fs = [z3.RealVal(c)]
            i = 0
            while m:
                e = m & MASK
                if e:
                    v = self.atom(i)
                    fs.extend([v] * e)
                m >>= BITS
                i += 1
            t = fs[0]
            for f in fs[1:]:
                t = t * f
            terms.append(t)
        return z3.Sum(terms) if terms else z3.RealVal(0)

    def signexpr(self, r: R):
        """an expression with the same sign as r (den != 0 assumed)"""
        e = self.poly(r.num)
        if r.c < 0:
            e = -e
        for f, k in r.den.items():
            if k % 2:
                e = e * self.poly(self.ring.factors[f])
        return e

    def value(self, r: R):
        """exact value of r as a z3 term (fresh variable for quotients)"""
        n = self.poly(r.num) * z3.RealVal(r.c)
        if not r.den:
            return n
        d = z3.RealVal(1)
        for f, k in r.den.items():
            for _ in range(k):
                d = d * self.poly(self.ring.factors[f])
        self.aux += 1
        w = z3.Real(f"w{self.aux}")
        self.cons.append(w * d == n)
        return w

    def flush(self):
        rg = self.ring
        while self.todo:
            i = self.todo.pop()
            a = rg.atoms[i]
            z = self.z[i]
            k = a["kind"]
            if k == "root":
                f, n = a["args"]
                e = z
                for _ in range(n - 1):
                    e = e * z
                self.cons.append(e == self.poly(f))
                if n % 2 == 0:
                    self.cons.append(z >= 0)
                else:
                    pf = self.poly(f)
                    self.cons.append(z3.Implies(pf > 0, z > 0))
                    self.cons.append(z3.Implies(pf < 0, z < 0))
            elif k in ("sin", "sinpi"):
                c = i - 1
                self.cons.append(z * z + self.atom(c) * self.atom(c) == 1)
                self.cons.append(z3.And(z >= -1, z <= 1))
            elif k in ("cos", "cospi"):
                self.cons.append(z3.And(z >= -1, z <= 1))
                if i + 1 < len(rg.atoms):
                    self.atom(i + 1)
            elif k == "exp":
                self.cons.append(z > 0)
                part, den = a["args"]
                v = self.value(part) / den
                self.cons.append(z >= 1 + v)
                self.cons.append(z3.Implies(v < 0, z < 1))
                self.cons.append(z3.Implies(v > 0, z > 1))
            elif k == "pi":
                self.cons.append(z3.And(z > z3.Q(314159265358979, 10 ** 14), z < z3.Q(31415926535898, 10 ** 13)))
            elif k == "atan2":
                y, x = a["args"]
                pi = rg.by_key.get("pi")
                if pi is None:
                    rg._conv1(tm.PI)
                    pi = rg.by_key.get("pi")
                p = self.atom(pi)
                sy, sx = self.signexpr(y), self.signexpr(x)
                self.cons.append(z3.And(z > -p, z <= p))
                self.cons.append(z3.Implies(sy > 0, z3.And(z > 0, z < p)))
                self.cons.append(z3.Implies(sy < 0, z < 0))
                self.cons.append(z3.Implies(z3.And(sy == 0, sx > 0), z == 0))
                self.cons.append(z3.Implies(z3.And(sy == 0, sx < 0), z == p))
                self.cons.append(z3.Implies(z3.And(sy == 0, sx == 0), z == 0))
                self.cons.append(z3.Implies(sx > 0, z3.And(2 * z > -p, 2 * z < p)))
            elif k == "fn" and a["args"][0] == "floor":
                v = self.value(a["args"][1][0])
                self.cons.append(z3.And(z <= v, v < z + 1))
                self.cons.append(z3.IsInt(z))
                self.hasint = True
            elif k == "fn" and a["args"][0] == "log":
                v = self.value(a["args"][1][0])
                self.cons.append(z3.Implies(v > 1, z > 0))
                self.cons.append(z3.Implies(v == 1, z == 0))
                self.cons.append(z3.Implies(z3.And(v > 0, v < 1), z < 0))
                self.cons.append(z <= v - 1)

    def formula(self, t):
        op = t.op
        if op == "tt":
            return z3.BoolVal(True)
        if op == "ff":
            return z3.BoolVal(False)
        if op == "bv":
            return self.bools.setdefault(t, z3.Bool(f"b_{t.val}"))
        if op == "and":
            return z3.And([self.formula(a) for a in t.args])
        if op == "or":
            return z3.Or([self.formula(a) for a in t.args])
        if op == "not":
            return z3.Not(self.formula(t.args[0]))
        if op in ("lt", "le", "eq"):
            d = self.ring.sub(self.ring.conv(t.args[0]), self.ring.conv(t.args[1]))
            e = self.signexpr(d)
            return {"lt": e < 0, "le": e <= 0, "eq": e == 0}[op]
        raise ValueError(op)


def check(formulas, ms, nlsat=True):
    t0 = time.time()
    STATS["queries"] += 1
    s = z3.Solver()
    s.set("timeout", int(ms))
    s.add(*formulas)
    r = s.check()
    if r == z3.unknown and nlsat:
        try:
            s2 = z3.Then("simplify", "purify-arith", "solve-eqs", "elim-term-ite", "tseitin-cnf", "nlsat").solver()
            s2.set("timeout", int(ms))
            s2.add(*formulas)
            r = s2.check()
            s = s2
        except z3.Z3Exception:
            pass
    STATS["time"] += time.time() - t0
    STATS[str(r)] = STATS.get(str(r), 0) + 1
    return r, s


def _ctx_formulas(ring, enc, hyps):
    fs = []
    for h in hyps:
        if h.hasite or h in ring.busy:
            continue
        # a hypothesis under conversion may not be used to decide signs inside itself
        ring.busy.add(h)
        try:
            fs.append(enc.formula(h))
        except (Undefined, ZeroDivisionError, TooBig):
            continue
        finally:
            ring.busy.discard(h)
    return fs


def _unsat(ring, hyps, build, ms):
    """is hyps & relations & build(enc) contradictory? light encoding first"""
    for light in (True, False):
        enc = Enc(ring, light)
        g = build(enc)
        fs = _ctx_formulas(ring, enc, hyps)
        enc.flush()
        if light and not enc.opq:
            continue
        r, s = check(fs + enc.cons + ([g] if g is not None else []), min(ms, 800) if light else ms, nlsat=not light)
        if r == z3.unsat:
            return True
    return False


def prove_sign(ring, p, want):
    key = None

    def build(enc):
        goal = enc.poly(p)
        return goal <= 0 if want > 0 else goal >= 0
    return _unsat(ring, ring.hyps, build, ring.z3ms)


def entails(ring, hyps, goal, ms=None):
    """hyps |= goal ?  True if proved."""
    return _unsat(ring, hyps, lambda enc: z3.Not(enc.formula(goal)), ms or ring.z3ms)


def feasible(ring, hyps, ms=None):
    """False only if the hypotheses are contradictory."""
    return not _unsat(ring, hyps, lambda enc: None, ms or ring.z3ms)


def zero_impossible(ring, hyps, p, ms=None):
    return _unsat(ring, hyps, lambda enc: enc.poly(p) == 0, ms or ring.z3ms)


def model(ring, hyps, ms=None, goal=None):
    """A model of the hypotheses (and not goal) restricted to variable atoms; may be spurious for
    transcendental atoms. Returns {T: float} or None."""
    enc = Enc(ring)
    extra = []
    if goal is not None:
        extra = [z3.Not(enc.formula(goal))]
    fs = _ctx_formulas(ring, enc, hyps)
    enc.flush()
    r, s = check(fs + enc.cons + extra, ms or ring.z3ms)
    if r != z3.sat:
        return None
    m = s.model()
    out = {}
    for i, z in enc.z.items():
        a = ring.atoms[i]
        if a["kind"] == "v":
            v = m.eval(z, model_completion=True)
            try:
                if z3.is_algebraic_value(v):
                    v = v.approx(30)
                out[a["args"]] = float(v.numerator_as_long()) / float(v.denominator_as_long())
            except Exception:
                return None
    return out
