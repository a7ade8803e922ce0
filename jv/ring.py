"""Normal forms for ite-free terms: rational functions over algebraically related atoms.

Atoms and the relations used (all are theorems of real analysis, restated and proved in lean/Axioms.lean):
  root_k(f): root_k(f)^k = f, root_k(f) >= 0 (f >= 0)     sin^2 = 1 - cos^2, addition theorems
  exp(a+b) = exp a exp b, sinh/cosh/tanh by exp            cos/sin of atan2, acos = atan2(sqrt(1-x^2), x)
Everything else is an uninterpreted atom (congruence: equal arguments give the same atom).
A difference whose normal form is the zero polynomial is zero wherever both sides are defined.
"""
from __future__ import annotations
from fractions import Fraction
from math import gcd
import math
import numpy as np
import time

from . import terms as tm
from .terms import T

BITS = 16
MASK = (1 << BITS) - 1


class Restart(Exception):
    pass


class TooBig(Exception):
    pass


class Poly(dict):
    """{packed monomial: int}"""
    __slots__ = ()


def p_const(c):
    return Poly({0: c}) if c else Poly()


def p_add(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = Poly(a)
    for m, c in b.items():
        n = r.get(m, 0) + c
        if n:
            r[m] = n
        else:
            del r[m]
    return r


def p_scale(a, c):
    return Poly({m: v * c for m, v in a.items()}) if c else Poly()


def p_mul(a, b, limit=400000):
    if len(a) * len(b) > 6000000:
        raise TooBig()
    if len(a) < len(b):
        a, b = b, a
    r = {}
    get = r.get
    for m2, c2 in b.items():
        for m1, c1 in a.items():
            m = m1 + m2
            r[m] = get(m, 0) + c1 * c2
    return Poly({m: c for m, c in r.items() if c})


def p_content(a):
    g = 0
    for c in a.values():
        g = gcd(g, c)
        if g == 1:
            break
    return g


class R:
    """num / (product of interned factors^k) ; integer denominators live in `c` (Fraction coefficient)."""
    __slots__ = ("num", "den", "c")

    def __init__(self, num, den, c):
        self.num, self.den, self.c = num, den, c


class Ring:
    def __init__(self, hyps=(), samples=None, z3ms=4000, angle_den=None, stats=None):
        self.atoms = []          # dicts: kind, args, rel(deg, Poly) , val(np array), pos
        self.by_key = {}
        self.factors = []        # interned denominator factors (Poly)
        self.factor_id = {}
        self.samples = samples or {}
        self.hyps = list(hyps)
        self.z3ms = z3ms
        self.memo = {}
        self.sign_memo = {}
        self.angle_den = angle_den if angle_den is not None else {}
        self.angle_bases = []
        self.exp_bases = []
        self.stats = stats if stats is not None else {}
        self.busy = set()
        self.nsamp = None
        for v in self.samples.values():
            self.nsamp = len(v)
            break

    # ---------------------------------------------------------------- atoms
    def new_atom(self, kind, args, val, rel=None, key=None):
        i = len(self.atoms)
        self.atoms.append(dict(kind=kind, args=args, rel=rel, val=val, idx=i))
        if key is not None:
            self.by_key[key] = i
        return i

    def amon(self, i, e=1):
        return e << (BITS * i)

    def r_atom(self, i):
        return R(Poly({self.amon(i): 1}), {}, Fraction(1))

    def const(self, c):
        c = Fraction(c)
        if c == 0:
            return R(Poly(), {}, Fraction(1))
        return R(p_const(1), {}, c)

    # ---------------------------------------------------------------- reduction
    def reduce(self, p):
        for i in range(len(self.atoms) - 1, -1, -1):
            rel = self.atoms[i]["rel"]
            if rel is None:
                continue
            deg, rp = rel
            sh = BITS * i
            hit = False
            for m in p:
                if ((m >> sh) & MASK) >= deg:
                    hit = True
                    break
            if not hit:
                continue
            groups = {}
            for m, c in p.items():
                e = (m >> sh) & MASK
                k, rest = divmod(e, deg)
                groups.setdefault(k, {})
                m2 = m - ((e - rest) << sh)
                g = groups[k]
                g[m2] = g.get(m2, 0) + c
            res = Poly({m: c for m, c in groups.pop(0, {}).items() if c})
            powr = p_const(1)
            kk = 0
            for k in sorted(groups):
                while kk < k:
                    powr = p_mul(powr, rp)
                    kk += 1
                res = p_add(res, p_mul(Poly({m: c for m, c in groups[k].items() if c}), powr))
            p = res
            if len(p) > 200000:
                raise TooBig()
        return p

    def pmul(self, a, b):
        return self.reduce(p_mul(a, b))

    # ---------------------------------------------------------------- rational arithmetic
    def norm(self, num, den, c):
        """pull content, cancel monomials and exact denominator factors"""
        if not num:
            return R(Poly(), {}, Fraction(1))
        g = p_content(num)
        if g != 1:
            num = Poly({m: v // g for m, v in num.items()})
            c = c * g
        # leading sign
        if den:
            den = dict(den)
            for fid in list(den):
                f = self.factors[fid]
                while den.get(fid, 0) > 0:
                    qt = self.exact_div(num, f)
                    if qt is None:
                        break
                    num = qt
                    den[fid] -= 1
                    if den[fid] == 0:
                        del den[fid]
            g = p_content(num)
            if g != 1:
                num = Poly({m: v // g for m, v in num.items()})
                c = c * g
        return R(num, den, c)

    def exact_div(self, a, f):
        """a / f if exact (as polynomials), else None"""
        if len(f) == 1:
            (m, c), = f.items()
            out = {}
            for ma, ca in a.items():
                mm = m
                sh = 0
                # check exponentwise
                x, y = ma, m
                while y:
                    if (x & MASK) < (y & MASK):
                        return None
                    x >>= BITS
                    y >>= BITS
                if ca % c:
                    return None
                out[ma - m] = ca // c
            return Poly(out)
        if len(a) < len(f) or len(a) > 3000:
            return None
        lf = max(f)
        lc = f[lf]
        rem = dict(a)
        out = {}
        steps = 0
        while rem:
            la = max(rem)
            x, y = la, lf
            while y:
                if (x & MASK) < (y & MASK):
                    return None
                x >>= BITS
                y >>= BITS
            if rem[la] % lc:
                return None
            k = rem[la] // lc
            d = la - lf
            out[d] = k
            for m, c in f.items():
                mm = m + d
                n = rem.get(mm, 0) - k * c
                if n:
                    rem[mm] = n
                else:
                    del rem[mm]
            steps += 1
            if steps > 4000:
                return None
        return Poly(out)

    def intern_factor(self, p):
        """p: Poly (nonzero). returns (list of (fid, exp)), Fraction coefficient) with p = coeff * prod f^e"""
        g = p_content(p)
        c = Fraction(g)
        if g != 1:
            p = Poly({m: v // g for m, v in p.items()})
        # monomial content
        out = []
        if len(p) >= 1:
            for i in range(len(self.atoms)):
                sh = BITS * i
                e = min((m >> sh) & MASK for m in p)
                if e:
                    p = Poly({m - (e << sh): v for m, v in p.items()})
                    out.append((self._fid(Poly({1 << sh: 1})), e))
        if len(p) == 1:
            (m, v), = p.items()
            return out, c * v
        if p[max(p)] < 0:
            p = p_scale(p, -1)
            c = -c
        # split by already known factors
        changed = True
        while changed and len(p) > 1:
            changed = False
            for fid, f in enumerate(self.factors):
                if 1 < len(f) < len(p) or (len(f) == len(p) and f != p):
                    qt = self.exact_div(p, f)
                    if qt is not None:
                        out.append((fid, 1))
                        p = qt
                        changed = True
                        break
        if len(p) == 1:
            (m, v), = p.items()
            c *= v
            for i in range(len(self.atoms)):
                e = (m >> (BITS * i)) & MASK
                if e:
                    out.append((self._fid(Poly({1 << (BITS * i): 1})), e))
            return out, c
        out.append((self._fid(p), 1))
        return out, c

    def _fid(self, p):
        k = frozenset(p.items())
        f = self.factor_id.get(k)
        if f is None:
            f = len(self.factors)
            self.factors.append(p)
            self.factor_id[k] = f
        return f

    def add(self, a, b):
        if not a.num:
            return b
        if not b.num:
            return a
        den = dict(a.den)
        for f, e in b.den.items():
            if den.get(f, 0) < e:
                den[f] = e
        na, nb = a.num, b.num
        for f, e in den.items():
            ea = e - a.den.get(f, 0)
            eb = e - b.den.get(f, 0)
            for _ in range(ea):
                na = self.pmul(na, self.factors[f])
            for _ in range(eb):
                nb = self.pmul(nb, self.factors[f])
        ca, cb = a.c, b.c
        l = ca.denominator * cb.denominator // gcd(ca.denominator, cb.denominator)
        ia, ib = int(ca * l), int(cb * l)
        num = p_add(p_scale(na, ia), p_scale(nb, ib))
        return self.norm(num, den, Fraction(1, l))

    def mul(self, a, b):
        if not a.num or not b.num:
            return R(Poly(), {}, Fraction(1))
        den = dict(a.den)
        for f, e in b.den.items():
            den[f] = den.get(f, 0) + e
        # quick cross cancellation
        return self.norm(self.pmul(a.num, b.num), den, a.c * b.c)

    def neg(self, a):
        return R(a.num, a.den, -a.c)

    def sub(self, a, b):
        return self.add(a, self.neg(b))

    def inv(self, a):
        if not a.num:
            raise ZeroDivisionError
        num = p_const(1)
        for f, e in a.den.items():
            for _ in range(e):
                num = self.pmul(num, self.factors[f])
        fac, c = self.intern_factor(self.rationalise(a.num))
        den = {}
        extra = self._rat_extra
        for f, e in fac:
            den[f] = den.get(f, 0) + e
        r = self.norm(num, den, 1 / (a.c * c))
        if extra is not None:
            r = self.mul(r, R(extra, {}, Fraction(1)))
        return r

    _rat_extra = None

    def rationalise(self, p):
        """multiply p by its conjugate w.r.t. a quadratic atom if that removes the atom and p is small"""
        self._rat_extra = None
        return p

    def powi(self, a, n):
        if n < 0:
            return self.powi(self.inv(a), -n)
        r = self.const(1)
        b = a
        while n:
            if n & 1:
                r = self.mul(r, b)
            n >>= 1
            if n:
                b = self.mul(b, b)
        return r

    def is_zero(self, a):
        return not a.num

    def equal(self, a, b):
        if a.num == b.num and a.den == b.den and a.c == b.c:
            return True
        va, vb = self.val(a), self.val(b)
        with np.errstate(all="ignore"):
            ok = np.isfinite(va) & np.isfinite(vb)
            if ok.any() and np.any(np.abs(va - vb)[ok] > 1e-5 * (1e-9 + np.abs(va) + np.abs(vb))[ok]):
                return False
        return self.is_zero(self.sub(a, b))

    # ---------------------------------------------------------------- numerics
    def pval(self, p):
        n = self.nsamp or 1
        tot = np.zeros(n)
        with np.errstate(all="ignore"):
            for m, c in p.items():
                try:
                    t = np.full(n, float(c))
                except OverflowError:
                    t = np.full(n, np.inf if c > 0 else -np.inf)
                i = 0
                while m:
                    e = m & MASK
                    if e:
                        t = t * self.atoms[i]["val"] ** e
                    m >>= BITS
                    i += 1
                tot = tot + t
        return tot

    def val(self, a):
        with np.errstate(all="ignore"):
            v = self.pval(a.num) * float(a.c)
            for f, e in a.den.items():
                v = v / self.pval(self.factors[f]) ** e
            return v

    # ---------------------------------------------------------------- sign oracle
    def psign(self, p):
        """+1/-1 if provably strictly positive/negative under the hypotheses, else None"""
        if not p:
            return 0
        if len(p) == 1:
            (m, c), = p.items()
            s = 1 if c > 0 else -1
            i = 0
            while m:
                e = m & MASK
                if e:
                    sa = self.asign(i)
                    if sa is None:
                        return None
                    if e % 2:
                        s *= sa
                m >>= BITS
                i += 1
            return s
        key = frozenset(p.items())
        if key in self.sign_memo:
            return self.sign_memo[key]
        r = self._psign(p)
        self.sign_memo[key] = r
        self.sign_memo[frozenset((m, -c) for m, c in p.items())] = None if r is None else -r
        return r

    def asign(self, i):
        a = self.atoms[i]
        if "sign" in a:
            return a["sign"]
        a["sign"] = None
        a["sign"] = self._psign(Poly({self.amon(i): 1}))
        return a["sign"]

    def _psign(self, p):
        v = self.pval(p)
        ok = np.isfinite(v)
        if not ok.any():
            return None
        v = v[ok]
        if np.all(v > 0):
            want = 1
        elif np.all(v < 0):
            want = -1
        else:
            return None
        from . import smt
        return want if smt.prove_sign(self, p, want) else None

    def rsign(self, a):
        if not a.num:
            return 0
        s = self.psign(a.num)
        if s is None:
            return None
        if a.c < 0:
            s = -s
        for f, e in a.den.items():
            if e % 2:
                sf = self.psign(self.factors[f])
                if sf is None:
                    return None
                s *= sf
        return s

    # ---------------------------------------------------------------- roots
    def root(self, a, k):
        """k-th root of rational a >= 0 (k even) / any sign (k odd)"""
        if not a.num:
            return self.const(0)
        # gather factors with multiplicity
        fac = []
        c = a.c
        nf, cc = self.factor_num(a.num)
        c *= cc
        fac.extend(nf)
        for f, e in a.den.items():
            fac.append((self.factors[f], -e))
        out = self.const(1)
        rest = []
        for f, e in fac:
            qd, r = divmod(e, k)
            if qd:
                base = R(f, {}, Fraction(1))
                if k % 2 == 0:
                    # root_k(f^(k q) * ...) = |f|^q ; need the sign unless q even
                    if qd % 2:
                        s = self.psign(f)
                        if s is None:
                            rest.append((f, e))
                            continue
                        if s < 0:
                            base = self.neg(base)
                out = self.mul(out, self.powi(base, qd))
            if r:
                rest.append((f, r))
        sgn = 1 if c > 0 else -1
        c = abs(c)
        known, unknown = [], []
        for f, e in rest:
            s = self.psign(f)
            if s is None and k % 2 == 0 and not (e % 2 == 0):
                unknown.append((f, e))
            elif s is None:
                unknown.append((f, e))
            else:
                if s < 0:
                    f = p_scale(f, -1)
                    if e % 2:
                        sgn = -sgn
                known.append((f, e))
        for f, e in known:
            i = self.root_atom(f, k)
            out = self.mul(out, self.powi(self.r_atom(i), e))
        # integer content: c = n/d -> root(n d^(k-1))/d
        n, d = c.numerator, c.denominator
        n = n * d ** (k - 1)
        out = self.mul(out, self.const(Fraction(1, d)))
        outside, inside = _split_root(n, k)
        out = self.mul(out, self.const(outside))
        if unknown:
            pol = p_const(inside * sgn)
            for f, e in unknown:
                for _ in range(abs(e)):
                    if e > 0:
                        pol = self.pmul(pol, f)
                if e < 0:  # multiply by f^(k-1)... and divide outside
                    q_ = -(-(-e) // k)
                    for _ in range(q_ * k + e):
                        pol = self.pmul(pol, f)
                    s = self.psign(f)
                    dv = R(f, {}, Fraction(1))
                    if s is None and k % 2 == 0 and q_ % 2:
                        # |f| = sqrt(f^2)
                        dv = self.r_atom(self.root_atom(self.pmul(f, f), 2))
                    elif s == -1 and k % 2 == 0:
                        dv = self.neg(dv)
                    out = self.mul(out, self.powi(self.inv(dv), q_))
            i = self.root_atom(pol, k)
            out = self.mul(out, self.r_atom(i))
        else:
            if sgn < 0:
                if k % 2:
                    out = self.neg(out)
                else:
                    # radicand negative: undefined; keep as an opaque atom
                    i = self.root_atom(p_const(-inside), k)
                    return self.mul(out, self.r_atom(i))
            for pr in inside_primes(inside):
                i = self.root_atom(p_const(pr), k)
                out = self.mul(out, self.powi(self.r_atom(i), inside_primes(inside)[pr]))
        return out

    def root_atom(self, f, k):
        key = ("root", k, frozenset(f.items()))
        i = self.by_key.get(key)
        if i is None:
            with np.errstate(all="ignore"):
                v = self.pval(f)
                val = np.where(v >= 0, np.abs(v) ** (1.0 / k), np.nan) if k % 2 == 0 else np.sign(v) * np.abs(v) ** (1.0 / k)
            i = self.new_atom("root", (f, k), val, rel=(k, f), key=key)
        return i

    def factor_num(self, p):
        """p = c * prod f^e (complete only for small polynomials)"""
        key = frozenset(p.items())
        cache = self.__dict__.setdefault("_fcache", {})
        if key in cache:
            return cache[key]
        g = p_content(p)
        c = Fraction(g)
        if g != 1:
            p = Poly({m: v // g for m, v in p.items()})
        out = []
        for i in range(len(self.atoms)):
            sh = BITS * i
            e = min((m >> sh) & MASK for m in p)
            if e:
                p = Poly({m - (e << sh): v for m, v in p.items()})
                out.append((Poly({1 << sh: 1}), e))
        if len(p) == 1:
            (m, v), = p.items()
            c *= v
            res = (out, c)
        else:
            if p[max(p)] < 0:
                p = p_scale(p, -1)
                c = -c
            if len(p) <= 40:
                fl = self._sympy_factor(p)
            else:
                fl = None
            if fl is None:
                # known factors by trial division, perfect square detection is left to the sample-guided hints
                mult = {}
                for fid, f in enumerate(self.factors):
                    if len(f) > 1:
                        while True:
                            qt = self.exact_div(p, f)
                            if qt is None or len(p) == 1:
                                break
                            mult[fid] = mult.get(fid, 0) + 1
                            p = qt
                for fid, e in mult.items():
                    out.append((self.factors[fid], e))
                if len(p) == 1:
                    (m, v), = p.items()
                    c *= v
                    for i in range(len(self.atoms)):
                        e = (m >> (BITS * i)) & MASK
                        if e:
                            out.append((Poly({1 << (BITS * i): 1}), e))
                else:
                    out.append((p, 1))
            else:
                cc, fs = fl
                c *= cc
                out.extend(fs)
            res = (out, c)
        cache[key] = res
        return res

    def _sympy_factor(self, p):
        from sympy.polys.rings import ring as sring
        from sympy import ZZ
        used = [i for i in range(len(self.atoms)) if any((m >> (BITS * i)) & MASK for m in p)]
        if not used:
            return None
        Rg, *gens = sring([f"x{i}" for i in used], ZZ)
        d = {}
        for m, c in p.items():
            d[tuple((m >> (BITS * i)) & MASK for i in used)] = ZZ(c)
        el = Rg.from_dict(d)
        try:
            c, fl = el.factor_list()
        except Exception:
            return None
        out = []
        c = Fraction(int(c))
        for f, e in fl:
            pp = Poly()
            for mon, cf in f.items():
                m = 0
                for i, x in zip(used, mon):
                    m |= int(x) << (BITS * i)
                pp[m] = int(cf)
            if pp[max(pp)] < 0:
                pp = p_scale(pp, -1)
                if e % 2:
                    c = -c
            out.append((pp, e))
        return c, out

    # ---------------------------------------------------------------- conversion
    def conv(self, t: T) -> R:
        for s in tm.topo(t):
            if s in self.memo or s.isb:
                continue
            self.memo[s] = self._conv1(s)
        return self.memo[t]

    def _var_val(self, t):
        v = self.samples.get(t)
        if v is None:
            n = self.nsamp or 1
            rng = np.random.default_rng(abs(hash(str(t.val))) % (2 ** 32))
            v = rng.uniform(0.3, 1.7, n)
        return np.asarray(v, dtype=float)

    def _conv1(self, s):
        op = s.op
        if op == "q":
            return self.const(s.val)
        if op == "v":
            i = self.by_key.get(("v", s.val))
            if i is None:
                i = self.new_atom("v", s, self._var_val(s), key=("v", s.val))
            return self.r_atom(i)
        if op == "pi":
            i = self.by_key.get("pi")
            if i is None:
                i = self.new_atom("pi", None, np.full(self.nsamp or 1, math.pi), key="pi")
                self.atoms[i]["sign"] = 1
            return self.r_atom(i)
        if op == "+":
            # balanced sum
            items = [self.memo[a] for a in s.args]
            while len(items) > 1:
                items = [self.add(items[i], items[i + 1]) if i + 1 < len(items) else items[i]
                         for i in range(0, len(items), 2)]
            return items[0]
        if op == "*":
            r = self.memo[s.args[0]]
            for a in s.args[1:]:
                r = self.mul(r, self.memo[a])
            return r
        if op == "pow":
            b = self.memo[s.args[0]]
            e = s.val
            if e.denominator == 1:
                return self.powi(b, int(e))
            rt = self.root(b, e.denominator)
            return self.powi(rt, int(e.numerator))
        if op == "ite":
            return self.opaque("ite", s)
        if op == "fn":
            return self.conv_fn(s)
        if op in ("inf", "nan"):
            raise Undefined(op)
        raise ValueError(op)

    def opaque(self, kind, s):
        key = ("opaque", s.id)
        i = self.by_key.get(key)
        if i is None:
            i = self.new_atom(kind, s, self._tval(s), key=key)
        return self.r_atom(i)

    def _tval(self, s):
        try:
            env = {v: self._var_val(v) for v in tm.free_vars(s)}
            v, = tm.evaluate_np([s], env)
            return np.broadcast_to(np.asarray(v, dtype=float), (self.nsamp or 1,))
        except KeyError:
            return np.full(self.nsamp or 1, np.nan)

    def conv_fn(self, s):
        n = s.val
        args = [self.memo[a] for a in s.args]
        if n in ("sin", "cos"):
            c, sn = self.trig(args[0])
            return c if n == "cos" else sn
        if n == "exp":
            return self.exp(args[0])
        if n in ("sinh", "cosh", "tanh"):
            E = self.exp(args[0])
            Ei = self.exp(self.neg(args[0]))
            if n == "sinh":
                return self.mul(self.sub(E, Ei), self.const(Fraction(1, 2)))
            if n == "cosh":
                return self.mul(self.add(E, Ei), self.const(Fraction(1, 2)))
            return self.mul(self.sub(E, Ei), self.inv(self.add(E, Ei)))
        if n == "asinh":
            x = args[0]
            return self.log(self.add(x, self.root(self.add(self.mul(x, x), self.const(1)), 2)))
        if n == "acosh":
            x = args[0]
            return self.log(self.add(x, self.root(self.sub(self.mul(x, x), self.const(1)), 2)))
        if n == "atanh":
            x = args[0]
            one = self.const(1)
            return self.mul(self.const(Fraction(1, 2)), self.log(self.mul(self.add(one, x), self.inv(self.sub(one, x)))))
        if n == "log":
            return self.log(args[0])
        if n == "cbrt":
            return self.root(args[0], 3)
        if n == "acos":
            x = args[0]
            return self.atan2(self.root(self.sub(self.const(1), self.mul(x, x)), 2), x)
        if n == "asin":
            x = args[0]
            return self.atan2(x, self.root(self.sub(self.const(1), self.mul(x, x)), 2))
        if n == "atan":
            return self.atan2(args[0], self.const(1))
        if n == "atan2":
            return self.atan2(args[0], args[1])
        return self.uninterpreted(n, args, s)

    def int_part(self, r):
        """r = I + rest with I an integer combination of integer-valued atoms; returns (I, rest)"""
        if r.den:
            return self.const(0), r
        I, rest = Poly(), Poly()
        for m, c in r.num.items():
            ok = (Fraction(c) * r.c).denominator == 1
            mm, i = m, 0
            while ok and mm:
                if mm & MASK:
                    a = self.atoms[i]
                    ok = a["kind"] == "fn" and a["args"][0] in ("floor", "round")
                mm >>= BITS
                i += 1
            (I if ok else rest)[m] = c
        return R(I, {}, r.c), R(rest, {}, r.c)

    def uninterpreted(self, n, args, s=None):
        if n in ("floor", "round"):
            I, rest = self.int_part(args[0])
            if I.num:
                if not rest.num:
                    return I
                if n == "floor":
                    return self.add(I, self.uninterpreted(n, [rest]))
        for a in self.atoms:
            if a["kind"] == "fn" and a["args"][0] == n and len(a["args"][1]) == len(args):
                if all(self.equal(x, y) for x, y in zip(a["args"][1], args)):
                    return self.r_atom(a["idx"])
        if n in ("floor",):
            v = np.floor(self.val(args[0]))
        elif n == "log":
            with np.errstate(all="ignore"):
                v = np.log(self.val(args[0]))
        elif n == "round":
            v = np.round(self.val(args[0]))
        else:
            v = np.zeros(self.nsamp or 1)
            for k, a in enumerate(args):
                v = v + np.sin((k + 1.3) * self.val(a)) + 0.37 * k
        i = self.new_atom("fn", (n, args), v)
        return self.r_atom(i)

    def log(self, x):
        if not self.is_zero(x) and self.is_zero(self.sub(x, self.const(1))):
            return self.const(0)
        for a in self.atoms:        # log(1/x) = -log x
            if a["kind"] == "fn" and a["args"][0] == "log" and self.equal(self.mul(x, a["args"][1][0]), self.const(1)):
                return self.neg(self.r_atom(a["idx"]))
        return self.uninterpreted("log", [x])

    def atan2(self, y, x):
        if self.is_zero(y):
            s = self.rsign(x)
            if s == 1:
                return self.const(0)
        vy, vx = self.val(y), self.val(x)
        for a in self.atoms:
            if a["kind"] != "atan2":
                continue
            y2, x2 = a["args"]
            with np.errstate(all="ignore"):
                v = np.arctan2(vy, vx)
                ok = np.isfinite(v) & np.isfinite(a["val"])
                if ok.any() and np.any(np.abs(v - a["val"])[ok] > 1e-5):
                    continue
            if not self.is_zero(self.sub(self.mul(y, x2), self.mul(y2, x))):
                continue
            # same line; same ray iff a positive scale
            for p, p2 in ((x, x2), (y, y2)):
                if self.is_zero(p) or self.is_zero(p2):
                    continue
                try:
                    k = self.mul(p, self.inv(p2))
                except ZeroDivisionError:
                    continue
                if self.rsign(k) == 1:
                    return self.r_atom(a["idx"])
        with np.errstate(all="ignore"):
            i = self.new_atom("atan2", (y, x), np.arctan2(vy, vx))
        return self.r_atom(i)

    # ---- angles: decompose into base angles
    def _terms(self, a):
        """a as a list of (Fraction coefficient, R monomial part)"""
        monoden = all(len(self.factors[f]) == 1 for f in a.den)
        if not a.num:
            return []
        if monoden:
            return [(a.c * c, self.norm(Poly({m: 1}), a.den, Fraction(1))) for m, c in sorted(a.num.items())]
        return [(a.c, R(a.num, a.den, Fraction(1)))]

    def _base(self, bases, coef, part):
        """express coef*part as (base index, integer multiple)"""
        v = self.val(part)
        for b in bases:
            r = None
            if part.num == b["part"].num and part.den == b["part"].den:
                r = part.c / b["part"].c
            else:
                with np.errstate(all="ignore"):
                    q_ = v / b["val"]
                    ok = np.isfinite(q_)
                    if not ok.any():
                        continue
                    q0 = q_[ok][0]
                    if np.any(np.abs(q_[ok] - q0) > 1e-6 * (abs(q0) + 1e-9)):
                        continue
                    fr = Fraction(float(q0)).limit_denominator(24)
                    if fr == 0 or abs(float(fr) - q0) > 1e-7 * abs(q0):
                        continue
                if self.is_zero(self.sub(part, self.mul(self.const(fr), b["part"]))):
                    r = fr
            if r is not None:
                k = coef * r * b["den"]
                if k.denominator != 1:
                    self.angle_den[b["id"]] = b["den"] * k.denominator
                    raise Restart()
                return b, int(k)
        bid = (id(bases) == id(self.angle_bases), len(bases))
        bid = ("a" if bases is self.angle_bases else "e", len(bases))
        b = dict(id=bid, part=part, val=v, den=self.angle_den.get(bid, coef.denominator), cs=None)
        if (coef * b["den"]).denominator != 1:
            self.angle_den[bid] = b["den"] * coef.denominator
            raise Restart()
        bases.append(b)
        return b, int(coef * b["den"])

    def trig(self, a):
        cs = (self.const(1), self.const(0))
        for coef, part in self._terms(a):
            if len(part.num) == 1 and not part.den:
                (m, c), = part.num.items()
                ip = self.by_key.get("pi")
                if ip is not None and m == self.amon(ip):
                    cs = self._cs_add(cs, self._cs_pi(coef * c * part.c))
                    continue
            b, k = self._base(self.angle_bases, coef, part)
            if b["cs"] is None:
                b["cs"] = self._base_cs(b)
            cs = self._cs_add(cs, self._cs_mult(b["cs"], k))
        return cs

    def _base_cs(self, b):
        part = b["part"]
        if b["den"] == 1 and len(part.num) == 1 and not part.den:
            (m, c), = part.num.items()
            for a in self.atoms:
                if a["kind"] == "atan2" and m == self.amon(a["idx"]) and c * part.c == 1:
                    y, x = a["args"]
                    rho = self.root(self.add(self.mul(x, x), self.mul(y, y)), 2)
                    ri = self.inv(rho)
                    return (self.mul(x, ri), self.mul(y, ri))
        v = b["val"] / b["den"]
        ic = self.new_atom("cos", (part, b["den"]), np.cos(v))
        is_ = self.new_atom("sin", (part, b["den"]), np.sin(v), rel=(2, Poly({0: 1, self.amon(ic, 2): -1})))
        self.atoms[is_]["cosidx"] = ic
        return (self.r_atom(ic), self.r_atom(is_))

    def _cs_add(self, p, q_):
        if self.is_zero(p[1]) and p[0].num == {0: 1} and p[0].c == 1 and not p[0].den:
            return q_
        c = self.sub(self.mul(p[0], q_[0]), self.mul(p[1], q_[1]))
        s = self.add(self.mul(p[1], q_[0]), self.mul(p[0], q_[1]))
        return c, s

    def _cs_mult(self, cs, k):
        if k < 0:
            c, s = self._cs_mult(cs, -k)
            return c, self.neg(s)
        if k > 64:
            raise TooBig()
        r = (self.const(1), self.const(0))
        for _ in range(k):
            r = self._cs_add(r, cs)
        return r

    def _cs_pi(self, k):
        k = k % 2
        h = Fraction(1, 2)
        n = int(k / h)
        rem = k - n * h
        base = [(1, 0), (0, 1), (-1, 0), (0, -1)][n % 4]
        cs = (self.const(base[0]), self.const(base[1]))
        if rem == 0:
            return cs
        r2 = lambda x: self.root(self.const(x), 2)
        tab = {Fraction(1, 4): (self.mul(r2(2), self.const(h)), self.mul(r2(2), self.const(h))),
               Fraction(1, 3): (self.const(h), self.mul(r2(3), self.const(h))),
               Fraction(1, 6): (self.mul(r2(3), self.const(h)), self.const(h))}
        if rem in tab:
            return self._cs_add(cs, tab[rem])
        ic = self.new_atom("cospi", rem, np.full(self.nsamp or 1, math.cos(math.pi * rem)), key=("cospi", rem)) \
            if ("cospi", rem) not in self.by_key else self.by_key[("cospi", rem)]
        if ("sinpi", rem) not in self.by_key:
            self.new_atom("sinpi", rem, np.full(self.nsamp or 1, math.sin(math.pi * rem)), key=("sinpi", rem),
                          rel=(2, Poly({0: 1, self.amon(ic, 2): -1})))
        return self._cs_add(cs, (self.r_atom(ic), self.r_atom(self.by_key[("sinpi", rem)])))

    def exp(self, a):
        out = self.const(1)
        for coef, part in self._terms(a):
            # exp(c*log(t)) = t^c
            if len(part.num) == 1 and not part.den:
                (m, c), = part.num.items()
                lg = next((x for x in self.atoms if x["kind"] == "fn" and x["args"][0] == "log"
                           and m == self.amon(x["idx"])), None)
                if lg is not None:
                    e = coef * c * part.c
                    t = lg["args"][1][0]
                    if e.denominator > 1:
                        t = self.root(t, e.denominator)
                    out = self.mul(out, self.powi(t, int(e.numerator)))
                    continue
            b, k = self._base(self.exp_bases, coef, part)
            if b["cs"] is None:
                with np.errstate(all="ignore"):
                    i = self.new_atom("exp", (part, b["den"]), np.exp(b["val"] / b["den"]))
                self.atoms[i]["sign"] = 1
                b["cs"] = self.r_atom(i)
            out = self.mul(out, self.powi(b["cs"], k))
        return out

    # ---------------------------------------------------------------- printing
    def show_poly(self, p, maxterms=8):
        out = []
        for m, c in list(p.items())[:maxterms]:
            fs = []
            i = 0
            while m:
                e = m & MASK
                if e:
                    a = self.atoms[i]
                    nm = str(a["args"].val) if a["kind"] == "v" else f"{a['kind']}{i}"
                    fs.append(nm + (f"^{e}" if e > 1 else ""))
                m >>= BITS
                i += 1
            out.append(f"{c}" + ("*" if fs else "") + "*".join(fs))
        return " + ".join(out) + (" + ..." if len(p) > maxterms else "")


class Undefined(Exception):
    pass


def inside_primes(n):
    out = {}
    d = 2
    while d * d <= n:
        while n % d == 0:
            out[d] = out.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def _split_root(n, k):
    if n == 0:
        return 0, 1
    out, ins = 1, 1
    if n.bit_length() > 80:
        return 1, n
    for p, e in inside_primes(n).items():
        a, b = divmod(e, k)
        out *= p ** a
        ins *= p ** b
    return out, ins
