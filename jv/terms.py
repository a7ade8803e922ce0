"""Hash-consed term DAG over the reals (with conditionals), the logic of the VC generator.

Real sort  : q (rational), v (variable), pi, inf, nan, +, *, pow(base; rational exponent), fn(name; args), ite
Bool sort  : tt, ff, bv (bool var), lt, le, eq, and, or, not, ite is expanded.
"""
from __future__ import annotations
from fractions import Fraction
import math

_TABLE: dict = {}
_COUNTER = [0]


class T:
    __slots__ = ("op", "args", "val", "id", "isb", "_h", "hasite")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    # operator sugar for writing contracts
    def __add__(self, o): return NotImplemented if hasattr(o, "__array__") else add(self, lift(o))
    def __radd__(self, o): return NotImplemented if hasattr(o, "__array__") else add(lift(o), self)
    def __sub__(self, o): return NotImplemented if hasattr(o, "__array__") else add(self, neg(lift(o)))
    def __rsub__(self, o): return NotImplemented if hasattr(o, "__array__") else add(lift(o), neg(self))
    def __mul__(self, o): return NotImplemented if hasattr(o, "__array__") else mul(self, lift(o))
    def __rmul__(self, o): return NotImplemented if hasattr(o, "__array__") else mul(lift(o), self)
    def __truediv__(self, o): return NotImplemented if hasattr(o, "__array__") else div(self, lift(o))
    def __rtruediv__(self, o): return NotImplemented if hasattr(o, "__array__") else div(lift(o), self)
    def __neg__(self): return neg(self)
    def __pow__(self, o): return power(self, o)
    def __lt__(self, o): return lt(self, lift(o))
    def __le__(self, o): return le(self, lift(o))
    def __gt__(self, o): return lt(lift(o), self)
    def __ge__(self, o): return le(lift(o), self)


def _mk(op, args=(), val=None, isb=False):
    key = (op, tuple(a.id for a in args), val)
    t = _TABLE.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.val, t.isb = op, tuple(args), val, isb
        t.id = _COUNTER[0]
        _COUNTER[0] += 1
        t.hasite = op == "ite" or any(a.hasite for a in args)
        _TABLE[key] = t
    return t


TT = _mk("tt", isb=True)
FF = _mk("ff", isb=True)
PI = _mk("pi")
INF = _mk("inf")
NAN = _mk("nan")


def q(x):
    return _mk("q", val=Fraction(x))


ZERO, ONE, TWO, HALF, MONE = q(0), q(1), q(2), q(Fraction(1, 2)), q(-1)


def var(name):
    return _mk("v", val=name)


def bvar(name):
    return _mk("bv", val=name, isb=True)


def lift(x):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return TT if x else FF
    if isinstance(x, (int, Fraction)):
        return q(x)
    if isinstance(x, float):
        return snap(x)
    raise TypeError(f"cannot lift {x!r}")


# ---------------------------------------------------------------- literals
def _snap_rational(x, maxden=720, ulps=2):
    f = Fraction(x).limit_denominator(maxden)
    if f != 0 and abs(float(f) - x) <= ulps * math.ulp(x):
        return f
    return None


def snap(x: float):
    """A float64 literal -> the real constant it denotes (within 2 ulp)."""
    x = float(x)
    if math.isnan(x):
        return NAN
    if math.isinf(x):
        return INF if x > 0 else mul(MONE, INF)
    if x == int(x) and abs(x) < 1e15:
        return q(int(x))
    r = repr(x)
    digits = len(r.replace("-", "").replace(".", "").split("e")[0].strip("0"))
    if digits <= 11:
        return q(Fraction(r))
    f = _snap_rational(x)
    if f is not None:
        return q(f)
    for k in (1, 2, 3, -1, -2, -3):
        f = _snap_rational(x / math.pi ** k, 720, 4)
        if f is not None and abs(f.numerator) <= 720:
            return mul(q(f), power(PI, k))
    f = _snap_rational(x * x, 720, 6)
    if f is not None and f.numerator <= 5000:
        s = power(q(f), Fraction(1, 2))
        return s if x > 0 else neg(s)
    f = _snap_rational(x * x / math.pi, 720, 6)
    if f is not None and f.numerator <= 720:
        s = power(mul(q(f), PI), Fraction(1, 2))
        return s if x > 0 else neg(s)
    return q(Fraction(r))


# ---------------------------------------------------------------- real constructors
def add(*ts):
    out, c = {}, Fraction(0)
    stack = list(reversed(ts))
    order = []
    while stack:
        t = lift(stack.pop())
        if t.op == "+":
            stack.extend(reversed(t.args))
            continue
        if t.op == "q":
            c += t.val
            continue
        if t.op == "nan":
            return NAN
        k, base = _split_coeff(t)
        if base in out:
            out[base] += k
        else:
            out[base] = k
            order.append(base)
    args = []
    if c != 0:
        args.append(q(c))
    for b in order:
        if out[b] == 0:
            if b is INF or b.op == "nan":
                return NAN
            if not _total(b):  # keep the definedness condition of b
                args.append(_mk("*", [ZERO] + (list(b.args) if b.op == "*" else [b])))
            continue
        args.append(b if out[b] == 1 else mul(q(out[b]), b))
    infs = [a for a in args if a is INF or (a.op == "*" and INF in a.args)]
    if infs:
        return infs[0] if len(infs) == 1 else NAN
    if not args:
        return ZERO
    if len(args) == 1:
        return args[0]
    return _mk("+", args)


def _split_coeff(t):
    if t.op == "*" and t.args[0].op == "q":
        rest = t.args[1:]
        return t.args[0].val, rest[0] if len(rest) == 1 else _mk("*", rest)
    return Fraction(1), t


def mul(*ts):
    c = Fraction(1)
    exps, order = {}, []
    stack = list(reversed(ts))
    infinite = False
    while stack:
        t = lift(stack.pop())
        if t.op == "*":
            stack.extend(reversed(t.args))
            continue
        if t.op == "q":
            c *= t.val
            continue
        if t is INF:
            infinite = True
            continue
        if t.op == "nan":
            return NAN
        b, e = (t.args[0], t.val) if t.op == "pow" else (t, Fraction(1))
        # only merge integer powers of the same sign class (keeps definedness information)
        key = (b, "n" if e < 0 else "p") if e.denominator == 1 else (b, e.denominator, "n" if e < 0 else "p")
        if key in exps:
            exps[key] += e
        else:
            exps[key] = e
            order.append(key)
    if infinite:
        if c == 0 or order:
            # sign of the product unknown / 0*inf
            return NAN if c == 0 else _mk("*", [q(c)] + [_pw(k[0], exps[k]) for k in order] + [INF])
        return INF if c > 0 else _mk("*", [MONE, INF])
    args = [_pw(k[0], exps[k]) for k in order]
    if c == 0 and not args:
        return ZERO
    if c == 0:
        # 0*x = 0 only where x is defined (finite); x is an everywhere-finite real in this logic,
        # so only keep the definedness of x
        if all(_total(a) for a in args):
            return ZERO
        return _mk("*", [ZERO] + args)
    if c == 1 and len(args) == 1:
        return args[0]
    if not args:
        return q(c)
    if c != 1:
        args = [q(c)] + args
    return _mk("*", args)


def _total(t, seen=None):
    """no definedness condition anywhere inside t"""
    for s in subterms(t):
        if s.op == "pow" and (s.val < 0 or s.val.denominator % 2 == 0):
            if not (s.args[0].op == "q" and s.args[0].val > 0) and s.args[0] is not PI:
                return False
        if s.op == "fn" and s.val in ("log", "acos", "asin", "acosh", "atanh"):
            return False
        if s.op in ("nan", "inf"):
            return False
    return True


def _pw(b, e):
    if e == 1:
        return b
    if e == 0:
        return ONE
    return power(b, e)


def neg(t):
    return mul(MONE, t)


def div(a, b):
    return mul(a, power(lift(b), -1))


def _iroot(n, k):
    if n < 0:
        return None
    r = round(n ** (1.0 / k)) if n < 2 ** 50 else int(round(n ** (1.0 / k)))
    for c in (r - 1, r, r + 1):
        if c >= 0 and c ** k == n:
            return c
    return None


def power(b, e):
    b = lift(b)
    if isinstance(e, T):
        if e.op == "q":
            e = e.val
        else:
            return fn("exp", mul(e, fn("log", b)))
    e = Fraction(e) if not isinstance(e, float) else snap(e).val
    if e == 0:
        return ONE
    if e == 1:
        return b
    if b is INF:
        return INF if e > 0 else ZERO
    if b.op == "*" and INF in b.args and e < 0:
        return ZERO
    if b.op == "nan":
        return NAN
    if b.op == "q":
        v = b.val
        if v == 0:
            return ZERO if e > 0 else INF
        if e.denominator == 1:
            return q(v ** int(e))
        if v > 0:
            n, d = _iroot(v.numerator, e.denominator), _iroot(v.denominator, e.denominator)
            if n is not None and d is not None:
                return q(Fraction(n, d) ** int(e.numerator))
        elif e.denominator % 2 == 0:
            return NAN
    if b.op == "pow" and e.denominator == 1 and (b.val.denominator != 1 or b.val > 0 or True):
        # (x^p)^n = x^(pn); for fractional p keep the parity of the definedness condition
        ne = b.val * e
        if b.val.denominator == 1 and (b.val > 0) == (e > 0) or b.val.denominator == 1 and b.val > 0:
            return power(b.args[0], ne)
    if b.op == "*" and b.args[0].op == "q" and e.denominator == 1 and b.args[0].val != 0:
        rest = b.args[1:]
        return mul(q(b.args[0].val ** int(e)), power(rest[0] if len(rest) == 1 else _mk("*", rest), e))
    return _mk("pow", (b,), e)


def sqrt(t):
    return power(lift(t), Fraction(1, 2))


def fn(name, *args):
    args = [lift(a) for a in args]
    if any(a.op == "nan" for a in args):
        return NAN
    if name == "sqrt":
        return sqrt(args[0])
    if name == "abs":
        a = args[0]
        if a.op == "q":
            return q(abs(a.val))
        return ite(lt(a, ZERO), neg(a), a)
    if name == "sign":
        a = args[0]
        return ite(lt(a, ZERO), MONE, ite(lt(ZERO, a), ONE, ZERO))
    if name == "max":
        return ite(lt(args[0], args[1]), args[1], args[0])
    if name == "min":
        return ite(lt(args[0], args[1]), args[0], args[1])
    a = args[0]
    if a is ZERO:
        r = {"sin": ZERO, "cos": ONE, "tan": ZERO, "exp": ONE, "sinh": ZERO, "cosh": ONE, "tanh": ZERO,
             "asinh": ZERO, "asin": ZERO, "atan": ZERO, "floor": ZERO, "ceil": ZERO, "cbrt": ZERO, "expm1": ZERO,
             "log1p": ZERO, "round": ZERO}.get(name)
        if r is not None:
            return r
    if a.op == "q":
        v = a.val
        if name == "floor":
            return q(math.floor(v))
        if name == "ceil":
            return q(math.ceil(v))
        if name == "log" and v == 1:
            return ZERO
    if name == "expm1":
        return add(fn("exp", a), MONE)
    if name == "log1p":
        return fn("log", add(a, ONE))
    if name == "exp2":
        return fn("exp", mul(a, fn("log", TWO)))
    if name == "log2":
        return div(fn("log", a), fn("log", TWO))
    if name == "tan":
        return div(fn("sin", a), fn("cos", a))
    if name == "ceil":
        return neg(fn("floor", neg(a)))
    if name == "trunc":
        return ite(lt(a, ZERO), fn("ceil", a), fn("floor", a))
    if a is INF and name in ("exp", "sinh", "cosh", "log", "asinh", "floor"):
        return INF
    return _mk("fn", args, name)


# ---------------------------------------------------------------- booleans
def lt(a, b):
    a, b = lift(a), lift(b)
    if a is b:
        return FF
    if a.op == "q" and b.op == "q":
        return TT if a.val < b.val else FF
    if a.op == "nan" or b.op == "nan":
        return FF
    if a is INF or (b.op == "*" and INF in b.args):
        return FF
    if (b is INF and a.op == "q") or (a.op == "*" and INF in a.args and b.op == "q"):
        return TT
    for x, y, sw in ((a, b, False), (b, a, True)):
        if x.op == "ite" and x.args[1].op == "q" and x.args[2].op == "q" and y.op == "q":
            f = (lambda z: lt(y, z)) if sw else (lambda z: lt(z, y))
            return bite(x.args[0], f(x.args[1]), f(x.args[2]))
    return _mk("lt", (a, b), isb=True)


def le(a, b):
    a, b = lift(a), lift(b)
    if a is b:
        return TT
    if a.op == "q" and b.op == "q":
        return TT if a.val <= b.val else FF
    if a.op == "nan" or b.op == "nan":
        return FF
    for x, y, sw in ((a, b, False), (b, a, True)):
        if x.op == "ite" and x.args[1].op == "q" and x.args[2].op == "q" and y.op == "q":
            f = (lambda z: le(y, z)) if sw else (lambda z: le(z, y))
            return bite(x.args[0], f(x.args[1]), f(x.args[2]))
    return _mk("le", (a, b), isb=True)


def eq(a, b):
    a, b = lift(a), lift(b)
    if a.isb or b.isb:
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if a is b:
        return TT
    if a.op == "q" and b.op == "q":
        return TT if a.val == b.val else FF
    if a.op == "nan" or b.op == "nan":
        return FF
    for x, y in ((a, b), (b, a)):
        if x.op == "ite" and x.args[1].op == "q" and x.args[2].op == "q" and y.op == "q":
            return bite(x.args[0], eq(x.args[1], y), eq(x.args[2], y))
    if a.id > b.id:
        a, b = b, a
    return _mk("eq", (a, b), isb=True)


def not_(a):
    a = lift(a)
    if a is TT:
        return FF
    if a is FF:
        return TT
    if a.op == "not":
        return a.args[0]
    return _mk("not", (a,), isb=True)


def and_(*ts):
    out = []
    for t in ts:
        t = lift(t)
        if t is FF:
            return FF
        if t is TT:
            continue
        for s in (t.args if t.op == "and" else (t,)):
            if s not in out:
                out.append(s)
    for s in out:
        if not_(s) in out:
            return FF
    if not out:
        return TT
    if len(out) == 1:
        return out[0]
    return _mk("and", out, isb=True)


def or_(*ts):
    out = []
    for t in ts:
        t = lift(t)
        if t is TT:
            return TT
        if t is FF:
            continue
        for s in (t.args if t.op == "or" else (t,)):
            if s not in out:
                out.append(s)
    for s in out:
        if not_(s) in out:
            return TT
    if not out:
        return FF
    if len(out) == 1:
        return out[0]
    return _mk("or", out, isb=True)


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    return eq(a, b)


def bite(c, a, b):
    if c is TT:
        return a
    if c is FF:
        return b
    if a is b:
        return a
    return or_(and_(c, a), and_(not_(c), b))


def ite(c, a, b):
    c, a, b = lift(c), lift(a), lift(b)
    if c is TT:
        return a
    if c is FF:
        return b
    if a is b:
        return a
    if a.isb:
        return bite(c, a, b)
    if c.op == "not":
        c, a, b = c.args[0], b, a
    return _mk("ite", (c, a, b))


# ---------------------------------------------------------------- traversal
def subterms(*roots):
    seen, out, stack = set(), [], list(roots)
    while stack:
        t = stack.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        out.append(t)
        stack.extend(t.args)
    return out


def topo(*roots):
    seen, out = set(), []
    stack = [(r, False) for r in reversed(roots)]
    while stack:
        t, done = stack.pop()
        if done:
            out.append(t)
            continue
        if t.id in seen:
            continue
        seen.add(t.id)
        stack.append((t, True))
        for a in t.args:
            if a.id not in seen:
                stack.append((a, False))
    return out


def rebuild(t, args):
    op = t.op
    if op == "+":
        return add(*args)
    if op == "*":
        return mul(*args)
    if op == "pow":
        return power(args[0], t.val)
    if op == "fn":
        return fn(t.val, *args)
    if op == "ite":
        return ite(*args)
    if op == "lt":
        return lt(*args)
    if op == "le":
        return le(*args)
    if op == "eq":
        return eq(*args)
    if op == "and":
        return and_(*args)
    if op == "or":
        return or_(*args)
    if op == "not":
        return not_(*args)
    return t


def subst(roots, mapping, lazy_ite=True):
    """mapping: {T: T}. Returns list of substituted roots."""
    memo = dict(mapping)
    single = isinstance(roots, T)
    rs = [roots] if single else list(roots)
    for t in topo(*rs):
        if t in memo:
            continue
        if not t.args:
            memo[t] = t
            continue
        na = [memo[a] for a in t.args]
        if all(x is y for x, y in zip(na, t.args)):
            memo[t] = t
        else:
            memo[t] = rebuild(t, na)
    res = [memo[r] for r in rs]
    return res[0] if single else res


def free_vars(*roots):
    return sorted({t for t in subterms(*roots) if t.op in ("v", "bv")}, key=lambda t: str(t.val))


NUM: dict = {}           # opaque symbols with a numerical meaning only: name -> (numpy implementation, mpmath implementation)
def lift_bool(t, fuel=24):
    """push conditionals out of the comparisons of a boolean term"""
    if not t.hasite or fuel <= 0:
        return t
    if t.op in ("and", "or", "not"):
        return rebuild(t, [lift_bool(a, fuel) for a in t.args])
    for s in topo(t):
        if s.op == "ite" and not s.args[0].hasite:
            c, a, b = s.args
            return or_(and_(c, lift_bool(subst(t, {s: a}), fuel // 2)), and_(not_(c), lift_bool(subst(t, {s: b}), fuel // 2)))
    return t


DEFS: dict = {}          # opaque contract symbols: name -> callable(*args) -> term


def expand(roots):
    """unfold the opaque contract symbols"""
    single = isinstance(roots, T)
    rs = [roots] if single else list(roots)
    memo = {}
    for t in topo(*rs):
        na = [memo[a] for a in t.args]
        if t.op == "fn" and t.val in DEFS:
            memo[t] = DEFS[t.val](*na)
        elif not t.args or all(x is y for x, y in zip(na, t.args)):
            memo[t] = t
        else:
            memo[t] = rebuild(t, na)
    res = [memo[r] for r in rs]
    return res[0] if single else res


def has_opaque(*roots):
    return any(t.op == "fn" and t.val in DEFS for t in subterms(*roots))


# ---------------------------------------------------------------- differentiation (of spec terms)
def diff(t, x, memo=None, extra=None):
    """d t / d x. extra: {(fnname): callable(args)->list of partials} for uninterpreted functions;
    memo may carry dependent variables: {var: derivative term}."""
    memo = {} if memo is None else memo
    for s in topo(t):
        if s in memo:
            continue
        op = s.op
        if s is x:
            r = ONE
        elif op in ("q", "pi", "v", "inf"):
            r = ZERO
        elif op == "+":
            r = add(*[memo[a] for a in s.args])
        elif op == "*":
            parts = []
            for i, a in enumerate(s.args):
                if memo[a] is not ZERO:
                    parts.append(mul(*[memo[a] if j == i else b for j, b in enumerate(s.args)]))
            r = add(*parts) if parts else ZERO
        elif op == "pow":
            r = mul(q(s.val), power(s.args[0], s.val - 1), memo[s.args[0]]) if memo[s.args[0]] is not ZERO else ZERO
        elif op == "ite":
            r = ite(s.args[0], memo[s.args[1]], memo[s.args[2]])
        elif op == "fn":
            ds = [memo[a] for a in s.args]
            if all(d is ZERO for d in ds):
                r = ZERO
            else:
                r = add(*[mul(p, d) for p, d in zip(_partials(s, extra), ds) if d is not ZERO])
        elif s.isb:
            r = ZERO
        else:
            raise ValueError(f"diff {op}")
        memo[s] = r
    return memo[t]


def _partials(s, extra):
    a = s.args
    n = s.val
    if extra and n in extra:
        return extra[n](a)
    if n == "sin": return [fn("cos", a[0])]
    if n == "cos": return [neg(fn("sin", a[0]))]
    if n == "exp": return [s]
    if n == "log": return [power(a[0], -1)]
    if n == "sinh": return [fn("cosh", a[0])]
    if n == "cosh": return [fn("sinh", a[0])]
    if n == "tanh": return [1 - s * s]
    if n == "atan": return [1 / (1 + a[0] ** 2)]
    if n == "asin": return [1 / sqrt(1 - a[0] ** 2)]
    if n == "acos": return [-1 / sqrt(1 - a[0] ** 2)]
    if n == "asinh": return [1 / sqrt(1 + a[0] ** 2)]
    if n == "cbrt": return [1 / (3 * s * s)]
    if n == "atan2":
        d = a[0] ** 2 + a[1] ** 2
        return [a[1] / d, -a[0] / d]
    if n in ("floor", "sign", "round"): return [ZERO]
    if n == "abs": return [fn("sign", a[0])]
    if n in ("max", "min"):
        first = lt(a[1], a[0]) if n == "max" else lt(a[0], a[1])
        return [ite(first, ONE, ZERO), ite(first, ZERO, ONE)]
    raise ValueError(f"no derivative for {n}")


# ---------------------------------------------------------------- evaluation
def evaluate_mp(roots, env, dps=40, funcs=None):
    """High-precision evaluation at one point. env: {T var: number}. Returns list (mpf/bool/nan)."""
    import mpmath as mp
    if has_opaque(*roots):
        roots = expand(roots)
    with mp.workdps(dps):
        memo = {}
        out = []
        for r in roots:
            out.append(_ev_mp(r, env, memo, mp, funcs or {}))
        return out


def _ev_mp(root, env, memo, mp, funcs):
    # demand driven so that unselected ite branches are not evaluated
    stack = [root]
    while stack:
        t = stack[-1]
        if t in memo:
            stack.pop()
            continue
        op = t.op
        if op == "ite":
            c = t.args[0]
            if c not in memo:
                stack.append(c)
                continue
            br = t.args[1] if memo[c] else t.args[2]
            if br not in memo:
                stack.append(br)
                continue
            memo[t] = memo[br]
            stack.pop()
            continue
        todo = [a for a in t.args if a not in memo]
        if todo:
            stack.extend(todo)
            continue
        memo[t] = _ev1(t, [memo[a] for a in t.args], env, mp, funcs)
        stack.pop()
    return memo[root]


def _ev1(t, a, env, mp, funcs):
    op = t.op
    nan = mp.nan
    if op == "q":
        return mp.mpf(t.val.numerator) / t.val.denominator
    if op in ("v", "bv"):
        v = env[t]
        return v if isinstance(v, bool) else mp.mpf(v)
    if op == "pi":
        return +mp.pi
    if op == "inf":
        return mp.inf
    if op == "nan":
        return nan
    if op == "tt":
        return True
    if op == "ff":
        return False
    if op == "+":
        return mp.fsum(a)
    if op == "*":
        return mp.fprod(a)
    if op == "pow":
        b, e = a[0], t.val
        if mp.isnan(b):
            return nan
        if b == 0 and e < 0:
            return nan
        if e.denominator == 1:
            return b ** int(e)
        if b < 0:
            return nan
        if b == 0:
            return mp.mpf(0)
        return mp.power(b, mp.mpf(e.numerator) / e.denominator)
    if op == "fn":
        if t.val in funcs:
            return funcs[t.val](*a)
        if t.val in NUM:
            return NUM[t.val][1](*a)
        return _fn_mp(t.val, a, mp)
    if op == "lt":
        return bool(a[0] < a[1])
    if op == "le":
        return bool(a[0] <= a[1])
    if op == "eq":
        return bool(a[0] == a[1])
    if op == "and":
        return all(a)
    if op == "or":
        return any(a)
    if op == "not":
        return not a[0]
    raise ValueError(op)


def _fn_mp(n, a, mp):
    x = a[0]
    try:
        if any(mp.isnan(z) for z in a):
            return mp.nan
        if n == "sin": return mp.sin(x)
        if n == "cos": return mp.cos(x)
        if n == "exp": return mp.exp(x)
        if n == "log": return mp.log(x) if x > 0 else mp.nan
        if n == "sinh": return mp.sinh(x)
        if n == "cosh": return mp.cosh(x)
        if n == "tanh": return mp.tanh(x)
        if n == "asinh": return mp.asinh(x)
        if n == "acosh": return mp.acosh(x) if x >= 1 else mp.nan
        if n == "atanh": return mp.atanh(x) if abs(x) < 1 else mp.nan
        if n == "acos": return mp.acos(x) if abs(x) <= 1 else mp.nan
        if n == "asin": return mp.asin(x) if abs(x) <= 1 else mp.nan
        if n == "atan": return mp.atan(x)
        if n == "atan2": return mp.atan2(x, a[1]) if (x != 0 or a[1] != 0) else mp.mpf(0)
        if n == "floor": return mp.floor(x)
        if n == "round":
            f = mp.floor(x)
            d = x - f
            if d != 0.5:
                return f if d < 0.5 else f + 1
            return f if int(f) % 2 == 0 else f + 1
        if n == "cbrt": return mp.cbrt(x) if x >= 0 else -mp.cbrt(-x)
    except (ValueError, OverflowError, ZeroDivisionError):
        return mp.nan
    raise KeyError(n)


def evaluate_np(roots, env, funcs=None):
    """Vectorised float64 evaluation. env: {T: ndarray}. Returns list of ndarrays."""
    import numpy as np
    if has_opaque(*roots):
        roots = expand(roots)
    memo = {}
    funcs = funcs or {}
    old = np.seterr(all="ignore")
    try:
        for t in topo(*roots):
            a = [memo[x] for x in t.args]
            op = t.op
            if op == "q":
                r = np.float64(float(t.val))
            elif op in ("v", "bv"):
                r = np.asarray(env[t])
            elif op == "pi":
                r = np.float64(math.pi)
            elif op == "inf":
                r = np.float64(np.inf)
            elif op == "nan":
                r = np.float64(np.nan)
            elif op == "tt":
                r = np.bool_(True)
            elif op == "ff":
                r = np.bool_(False)
            elif op == "+":
                r = a[0]
                for x in a[1:]:
                    r = r + x
            elif op == "*":
                r = a[0]
                for x in a[1:]:
                    r = r * x
            elif op == "pow":
                e = t.val
                if e.denominator == 1:
                    r = np.asarray(a[0], dtype=float) ** int(e)
                elif e == Fraction(1, 2):
                    r = np.sqrt(a[0])
                else:
                    r = np.power(a[0], float(e))
            elif op == "ite":
                r = np.where(a[0], a[1], a[2])
            elif op == "fn":
                n = t.val
                if n in funcs:
                    r = funcs[n](*a)
                elif n in NUM:
                    r = NUM[n][0](*a)
                else:
                    r = {"sin": np.sin, "cos": np.cos, "exp": np.exp, "log": np.log, "sinh": np.sinh, "cosh": np.cosh,
                         "tanh": np.tanh, "asinh": np.arcsinh, "acosh": np.arccosh, "atanh": np.arctanh,
                         "acos": np.arccos, "asin": np.arcsin, "atan": np.arctan, "atan2": np.arctan2,
                         "floor": np.floor, "round": np.round, "cbrt": np.cbrt}[n](*a)
            elif op == "lt":
                r = a[0] < a[1]
            elif op == "le":
                r = a[0] <= a[1]
            elif op == "eq":
                r = a[0] == a[1]
            elif op == "and":
                r = np.logical_and.reduce(np.broadcast_arrays(*a))
            elif op == "or":
                r = np.logical_or.reduce(np.broadcast_arrays(*a))
            elif op == "not":
                r = np.logical_not(a[0])
            else:
                raise ValueError(op)
            memo[t] = r
        return [memo[r] for r in roots]
    finally:
        np.seterr(**old)


# ---------------------------------------------------------------- printing
def show(t, depth=12):
    if depth == 0:
        return "..."
    s = lambda x: show(x, depth - 1)
    op = t.op
    if op == "q":
        return str(t.val)
    if op in ("v", "bv"):
        return str(t.val)
    if op in ("pi", "inf", "nan", "tt", "ff"):
        return op
    if op == "+":
        return "(" + " + ".join(map(s, t.args)) + ")"
    if op == "*":
        return "*".join(map(s, t.args))
    if op == "pow":
        return f"{s(t.args[0])}^({t.val})" if t.val != Fraction(1, 2) else f"sqrt({s(t.args[0])})"
    if op == "fn":
        return f"{t.val}({', '.join(map(s, t.args))})"
    if op == "ite":
        return f"ite({s(t.args[0])}, {s(t.args[1])}, {s(t.args[2])})"
    if op in ("lt", "le", "eq"):
        return f"({s(t.args[0])} {dict(lt='<', le='<=', eq='=')[op]} {s(t.args[1])})"
    if op == "not":
        return f"!{s(t.args[0])}"
    return "(" + (" & " if op == "and" else " | ").join(map(s, t.args)) + ")"
