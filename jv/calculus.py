"""Derivative contracts: the program jax derives for the derivative of a real function, in forward and in reverse mode, equals the
derivative of the function's postcondition, and none of its operations leaves its domain.

For a function with contract  requires P, result == S(x):
  forward   jvp of the real function along the unit vector of argument x_j  ==  d S / d x_j
  reverse   gradient of result element k of the real function               ==  d S_k / d x
  defined   every operation of both derived programs is defined
under P, away from the branch boundaries of S (both sides of every comparison in a selection of S differ), and where the
derivatives of S are defined.  Callees are inlined; the iterative solver inside kepler is replaced by its derivative contract
d chi/dp = -(df/dp)/(df/dchi).
"""
from __future__ import annotations
from . import boot as _boot     # noqa: F401  (import path of the tools, in worker processes too)
import os
import time
import concurrent.futures as cf
import multiprocessing as mp_
import numpy as np
import jax
import jax.numpy as jnp

from . import terms as tm, extract as ex
from .contract import Contract, Obl, REGISTRY, C, _o, TIER, SEED, Session
from .loops import SolverContract
from .solve import Samples, Unproved, dom

FORWARD_ONLY = ("kepler",)
HEAVY = {"rv2coe": 1, "dxdx0": 1, "kepler": 1, "pvpr0": 3, "pvpv0": 3, "prpv0": 3, "prpr0": 3}
SKIP = ("nmax_by_periapsis",)      # integer-valued


def subjects():
    return [n for n, c in REGISTRY.items() if isinstance(c, Contract) and not isinstance(c, SolverContract) and n not in SKIP]


def boundaries(ts):
    out = []
    for s in tm.subterms(*ts):
        if s.op == "ite":
            for a in tm.subterms(s.args[0]):
                if a.op in ("lt", "le", "eq") and not a.args[0].isb:
                    out.append(tm.not_(tm.eq(a.args[0], a.args[1])))
    return out


def domains(ts):
    """what it takes for every operation of ts to be defined on the selected branches: (path -> local domain) implications"""
    out = {}
    seen = set()
    todo = [(t, frozenset()) for t in ts]
    while todo:
        t, path = todo.pop()
        if (t.id, path) in seen or (t.id, frozenset()) in seen:
            continue
        seen.add((t.id, path))
        d = dom(t)
        if d is not None and d is not tm.TT:
            out.setdefault(d, set()).add(path)
        if t.op == "ite":
            c, x, y = t.args
            todo += [(c, path), (x, path | {c}), (y, path | {tm.not_(c)})]
        else:
            todo += [(x, path) for x in t.args]
    hs = []
    for d, paths in out.items():
        for p in paths:
            if not any(q < p for q in paths) and tm.and_(*p) is not tm.FF:
                hs.append(tm.or_(*[tm.not_(c) for c in p], d))
    return hs


# ---------------------------------------------------------------------- the solver's derivative as a callee contract
class Partial:
    """partial derivative of a callee with respect to argument k, by its (derivative) contract"""
    strict = True

    def __init__(self, c, k, term):
        self.c, self.k, self.term = c, k, term
        self.name = f"{c.name}@{k}"

    def apply(self, ctx, ins, shapes, dtypes):
        arrs = np.broadcast_arrays(*[_o(a) for a in ins])
        out = np.empty(arrs[0].shape, dtype=object)
        for i in np.ndindex(*out.shape):
            out[i] = self.term({p.name: tm.lift(a[i]) for p, a in zip(self.c.params, arrs)})
        return [out] if [out.shape] == [tuple(s) for s in shapes] else None


def U(n, chi, alpha):
    return tm.fn(f"U{n}", chi, alpha)


def ufunc_partial(n, k, e):
    """d U_n / d chi = U_{n-1} (n = 0: -alpha U_1);  d U_n / d alpha = (n U_{n+2} - chi U_{n+1}) / 2"""
    x, a = e["chi"], e["alpha"]
    if k == 0:
        return U(n - 1, x, a) if n else -a * U(1, x, a)
    return (n * U(n + 2, x, a) - x * U(n + 1, x, a)) / 2


def sol_partial(sol, k, e):
    base = [p.name for p in sol.params if p.name not in ("tol", "max_iter")]
    if sol.params[k].name not in base:
        return tm.ZERO
    g = {p.name: tm.var("g!" + p.name) for p in sol.params}
    xv = tm.var("g!x")
    val = sol.f(xv, **g)
    t = -tm.diff(val, g[sol.params[k].name], None, u_extra()) / sol.slope(xv, **g)
    mp = {g[n]: e[n] for n in g}
    mp[xv] = tm.fn(sol.symbol, *[e[n] for n in base])
    return tm.subst(t, mp)


def u_extra():
    return {f"U{n}": (lambda n: lambda a: [ufunc_partial(n, k, {"chi": a[0], "alpha": a[1]}) for k in (0, 1)])(n) for n in range(8)}


def rules():
    """derivatives of the opaque contract symbols"""
    out = u_extra()
    for c in REGISTRY.values():
        if isinstance(c, SolverContract):
            def part(args, c=c):
                base = [p.name for p in c.params if p.name not in ("tol", "max_iter")]
                e = {p.name: C(p.default)[()] if p.default is not None else tm.ONE for p in c.params}
                e.update(zip(base, args))
                return [sol_partial(c, [p.name for p in c.params].index(n), e) for n in base]
            out[c.symbol] = part
    return out


def callee_rules():
    """contract name -> (argument index -> term of the partial derivative)"""
    out = {}
    for n, c in REGISTRY.items():
        if isinstance(c, SolverContract):
            out[n] = (lambda c: lambda k: lambda e: sol_partial(c, k, e))(c)
        elif n.startswith("ufunc"):
            out[n] = (lambda m: lambda k: lambda e: ufunc_partial(m, k, e))(int(n[5:]))
    return out


class Modular(ex.Modular):
    """callees with a derivative contract are replaced by a differentiable call: value and derivative from their contracts"""

    def __init__(self):
        self.wrappers, self.depth, self.parts = {}, 0, {}
        for n, rule in callee_rules().items():
            c = REGISTRY[n]
            try:
                f = c.func()
            except Exception:
                continue
            self.wrappers[id(f)] = (f, self.differentiable(c, f, rule))

    def differentiable(self, c, f, rule):
        value = ex._wrap(c.name, f)
        ps = []
        for k in range(len(c.params)):
            self.parts[f"{c.name}@{k}"] = Partial(c, k, rule(k))
            ps.append(ex._wrap(f"{c.name}@{k}", f))
        order = [p.name for p in c.params]
        import inspect
        sig = inspect.signature(f)

        @jax.custom_jvp
        def call(*vals):
            return value(**dict(zip(order, vals)))

        @call.defjvp
        def derivative(primals, tangents):
            y = value(**dict(zip(order, primals)))
            t = jnp.zeros_like(y)
            for k, d in enumerate(tangents):
                if order[k] not in ("tol", "max_iter") and getattr(d, "dtype", None) != jax.dtypes.float0:
                    t = t + ps[k](**dict(zip(order, primals))) * d
            return y, t

        def entry(*a, **kw):
            b = sig.bind(*a, **kw)
            b.apply_defaults()
            return call(*[jnp.asarray(b.arguments[n], dtype=None if n == "max_iter" else float) for n in order])
        return entry


# ---------------------------------------------------------------------- one function
class Subject:
    def __init__(self, name):
        self.c = c = REGISTRY[name]
        self.f = c.func()
        self.sh = {p.name: tuple(p.core) for p in c.params}
        self.sym = c.symbols(self.sh, set())
        self.names = [p.name for p in c.params]
        self.ab = c.abstract(self.sh, set())
        spec = c.spec(**self.sym)
        flat = [tm.lift(x) for s in (spec if isinstance(spec, tuple) else (spec,)) for x in _o(s).ravel()]
        self.boolean = any(t.isb for t in flat)
        if self.boolean:
            return
        own = name.startswith("ufunc")      # the universal functions are opaque everywhere but in their own contracts
        self.flat = tm.expand(flat) if own else flat
        self.at = [(p, i) for p in c.params for i in np.ndindex(*tuple(p.core))]
        self.X = [self.sym[p.name][i] if p.core else self.sym[p.name][()] for p, i in self.at]
        extra = rules()
        self.D = [[tm.diff(t, x, None, extra) for x in self.X] for t in self.flat]
        pre = [h for h in c.pre(**self.sym) if h is not tm.TT]
        need = domains([y for r in self.D for y in r]) + boundaries(self.flat)
        for p in c.params:          # the length of a vector has no derivative at zero: vector arguments are nonzero
            v = self.sym[p.name]
            for part in ([v] if p.core == (3,) else [v[:3], v[3:]] if p.core == (6,) else []):
                need.append(tm.lt(tm.ZERO, tm.add(*[x ** 2 for x in part])))
        self.hyps = [h for h in dict.fromkeys((tm.expand(pre) if own else pre) + need) if h is not tm.TT]
        self.samples = Samples(c.pool(self.sh, set(), self.hyps))

    def leaves(self, vals):
        out = jax.tree_util.tree_leaves(self.c.invoke(self.f, dict(zip(self.names, vals))))
        return jnp.concatenate([jnp.ravel(jnp.asarray(y, dtype=float)) for y in out])

    def program(self, mode, j):
        if mode == "forward":
            p, i = self.at[j]
            k = self.names.index(p.name)

            def g(*vals):
                h = lambda w: self.leaves([w if m == k else v for m, v in enumerate(vals)])
                tan = jnp.zeros(vals[k].shape).at[i].set(1.0) if p.core else jnp.ones(())
                return jax.jvp(h, (vals[k],), (tan,))[1]
        else:
            def g(*vals):
                gr = jax.grad(lambda *v: self.leaves(v)[j], argnums=tuple(range(len(vals))))(*vals)
                return jnp.concatenate([jnp.ravel(y) for y in gr])
        return g

    def label(self, mode, j):
        if mode == "forward":
            return f"d/d {self.X[j].val}"
        return f"grad of result {j}"

    def expected(self, mode, j):
        return [r[j] for r in self.D] if mode == "forward" else self.D[j]

    def count(self, mode):
        return len(self.X) if mode == "forward" else len(self.flat)


_CACHE = {}


def subject(name):
    if name not in _CACHE:
        _CACHE[name] = Subject(name)
    return _CACHE[name]


def modes(name):
    return ("forward",) if name in FORWARD_ONLY else ("forward", "reverse")


def generalise(a, b, hyps, samples):
    """sums that occur on both sides become variables (sound: the goal is proved for every value of them)"""
    sums = lambda t: {x for x in tm.subterms(t) if x.op == "+" and len(tm.free_vars(x)) > 1 and not any(y.op == "ite" for y in tm.subterms(x))}
    common = sums(a) & sums(b)
    small = [x for x in common if not any(y is not x and y in common for y in tm.subterms(x))]
    if not small:
        return None
    mp = {x: tm.var(f"let!{i}") for i, x in enumerate(sorted(small, key=lambda x: x.id))}
    pool = dict(samples.pool)
    for x, v in mp.items():
        pool[v] = np.broadcast_to(np.asarray(tm.evaluate_np([x], samples.pool)[0], float), (samples.n,))
    facts = []
    for x, v in mp.items():
        if all(y.op == "pow" and y.val == 2 or y.op == "q" and y.val >= 0 for y in x.args):
            facts.append(tm.le(tm.ZERO, v))
    r = tm.subst([a, b] + list(hyps), mp)
    return r[0], r[1], r[2:] + facts, Samples(pool)


def prove_pair(session, a, b, hyps, samples, label):
    try:
        session.prove_pair(a, b, hyps, samples, label)
    except Unproved as u:
        g = generalise(a, b, hyps, samples)
        if g is None:
            raise
        try:
            session.prove_pair(*g, label)
        except Unproved:
            raise u


def check(session, name, mode, j):
    s = subject(name)
    lab = s.label(mode, j)
    mk = lambda what: Obl(name, mode, what, lab)
    o = mk("derivative")
    t0 = time.time()
    mod = Modular()
    g = s.program(mode, j)
    ctx = ex.Ctx({**session.contracts, **mod.parts}, modular=True)
    try:
        with mod.patched(keep=s.f):
            outs = ex.extract(g, [s.ab[k] for k in s.names], [s.sym[k] for k in s.names], ctx)[0]
        got = [y for a in outs for y in a.ravel()]
    except Exception as e:
        o.status, o.why = "failed", f"{type(e).__name__}: {str(e)[:400]}"
        refute(s, mode, j, o)
        return [o]
    want = s.expected(mode, j)
    o.status, o.backend, o.count = "proved", "ring+z3", 0
    if ctx.narrowing:
        o.status, o.why = "failed", f"precision lost: {sorted(set(ctx.narrowing))}"
        refute(s, mode, j, o)
        return [o]
    for a, b in zip(got, want):
        try:
            prove_pair(session, a, b, s.hyps, s.samples, lab)
            o.count += 1
        except Unproved as u:
            o.status, o.why = "failed", str(u.why)[:1000]
            refute(s, mode, j, o)
            o.time = time.time() - t0
            return [o]
    o.time = time.time() - t0
    d = mk("defined")
    t0 = time.time()
    try:
        d.count = session.prove_defined(got, s.hyps, s.samples, lab)
        d.status, d.backend = "proved", "z3"
    except Unproved as u:
        d.status, d.why = "failed", str(u.why)[:1000]
        refute(s, mode, j, d)
    d.time = time.time() - t0
    return [o, d]


def ulemma(session, name):
    """the derivative contract used at call sites is the derivative of the universal function"""
    s = subject(name)
    n = int(name[5:])
    out = []
    for k, x in enumerate(s.X):
        o = Obl(name, "callee", "derivative", f"rule for d/d {x.val}")
        try:
            t = tm.expand([ufunc_partial(n, k, {"chi": s.X[0], "alpha": s.X[1]})])[0]
            session.prove_pair(t, s.D[0][k], s.hyps, s.samples, o.label)
            o.status, o.backend = "proved", "ring+z3"
        except Unproved as u:
            o.status, o.why = "failed", str(u.why)[:600]
        out.append(o)
    return out


def vacuity(session, name):
    """a perturbed derivative is rejected, the hypotheses have models"""
    s = subject(name)
    o = Obl(name, "-", "vacuity", "derivative hypotheses satisfiable, perturbed derivative rejected")
    if s.samples.n < 5:
        raise RuntimeError(f"vacuous: {s.samples.n} points satisfy the hypotheses of the derivative of {name}")
    try:
        session.prove_pair(s.D[0][0], s.D[0][0] + tm.ONE, s.hyps, s.samples, "perturbed")
    except Unproved:
        o.status, o.backend = "proved", "guard"
        return [o]
    raise RuntimeError(f"vacuous: a perturbed derivative of {name} was accepted")


def refute(s, mode, j, o, n=150):
    """the derivative of the real code at concrete points against the derivative of the contract in 40 digits"""
    g = s.program(mode, j)
    want = s.expected(mode, j)
    h = jax.jit(g)
    for special in (False, True) if s.c.name not in FORWARD_ONLY else (False,):
        rng = np.random.default_rng(5 + SEED)
        pool = s.c.pool(s.sh, set(), s.hyps, n=4000 if special else 1000, rng=rng, special=special)
        m = len(next(iter(pool.values()))) if pool else 0
        for i in range(min(n, m)):
            env = s.c.point(pool, i)
            vals = []
            for k in s.names:
                a = np.empty(s.sh[k])
                for q in np.ndindex(*s.sh[k]):
                    a[q] = env[s.sym[k][q]]
                vals.append(jnp.asarray(a))
            try:
                got = np.asarray(h(*vals), float)
            except Exception as e:
                o.witness = {"kind": "exception", "error": f"{type(e).__name__}: {str(e)[:300]}",
                             "inputs": {k: np.asarray(v).tolist() for k, v in zip(s.names, vals)}}
                return
            ref = tm.evaluate_mp(want, env)
            if any(r != r or abs(r) > 1e12 for r in ref):
                continue
            mag = max(float(abs(r)) for r in ref) + 1e-3
            bad = [k for k, (a, b) in enumerate(zip(got, ref)) if not abs(a - float(b)) <= max(s.c.tol, 1e-7) * 10 * mag]
            if not bad:
                continue
            sens = 0.0
            for _ in range(4):
                e2 = {k: v * (1 + 1e-12 * rng.choice([-1, 1])) for k, v in env.items()}
                r2 = tm.evaluate_mp(want, e2)
                sens = max([sens] + [float(abs(a - b)) for a, b in zip(ref, r2) if b == b])
            d = max(abs(got[k] - float(ref[k])) if np.isfinite(got[k]) else np.inf for k in bad)
            if d > 200 * sens:
                o.witness = {"kind": f"{mode} derivative", "what": o.label,
                             "inputs": {k: np.asarray(v).tolist() for k, v in zip(s.names, vals)},
                             "got": got.tolist(), "expected": [float(r) for r in ref]}
                return


# ---------------------------------------------------------------------- derivatives through the iterative solvers
def corners(ts):
    return [tm.not_(tm.eq(s.args[0], tm.ZERO)) for s in tm.subterms(*ts) if s.op == "fn" and s.val in ("sign", "abs")]


def solver(session, name, pname):
    """y(s), dy(s): value and derivative the derived program returns from loop state s.  With N(x) = x - f(x)/f'(x):
       start    dy(init) = d start / d p
       step     inv and guard -> dy(next) = (dN/dx)(y) dy + (dN/dp)(y)      (or neither changes and y is accepted)
       exit     at least one Newton step was made
    so the derivative returned is that of a Newton step, i.e. (lemma newton_derivative) the implicit derivative -(df/dp)/(df/dx)
    up to a term proportional to the last correction."""
    c = REGISTRY[name]
    f = c.func()
    obls = []
    mk = lambda kind, label: (obls.append(Obl(name, f"d/d {pname}", kind, label)), obls[-1])[1]
    from .loops import facts_init, absle, infinite_start
    args = {k: v[()] for k, v in c.symbols({p.name: () for p in c.params}, set()).items()}
    order = [p.name for p in c.params]
    ab = c.abstract({p.name: () for p in c.params}, set())
    k = order.index(pname)

    def g(*vals):
        h = lambda w: c.invoke(f, {n: (w if i == k else v) for i, (n, v) in enumerate(zip(order, vals))})
        return jax.jvp(h, (vals[k],), (jnp.ones(()),))
    o = mk("trace", "extract")
    try:
        for unroll in (8, 64):
            mod = Modular()
            ctx = ex.Ctx({**session.contracts, **mod.parts}, modular=True)
            ctx.unroll = unroll
            with mod.patched(keep=f):
                outs = ex.extract(g, [ab[n] for n in order], [np.array(args[n], dtype=object) for n in order], ctx)[0]
            if len(ctx.loops) == 1:
                break
        if len(ctx.loops) != 1:
            raise Unproved(f"{len(ctx.loops)} loops in the derived program")
        o.status, o.backend = "proved", "jaxpr"
    except Exception as e:
        o.status, o.why = "failed", f"{type(e).__name__}: {str(e)[:400]}"
        refute_solver(c, f, pname, o)
        return obls
    L = ctx.loops[0]
    back = dict(zip(L.exit, L.carry))
    y, dy = [tm.subst(a[()], back) for a in outs]
    n = L.carry[-1]
    nxt, ini = dict(zip(L.carry, L.next)), dict(zip(L.carry, L.init))
    pv = args[pname]
    ext = rules()
    D = lambda t, v: tm.diff(t, v, None, ext)
    xv = tm.var("newton!x")
    fx = lambda x: c.f(x, **args)
    N = xv - c.f(xv, **args) / c.slope(xv, **args)
    at = lambda t, x: tm.subst(t, {xv: x})
    st = c.start(**args)
    pre = [h for h in c.pre(**{a: C(v) for a, v in args.items()}) if h is not tm.TT]
    smooth = [h for h in dict.fromkeys(boundaries([st]) + corners([st]) + domains([st])) if h is not tm.TT]
    # the residual's own branch boundaries (alpha = 0) are excluded throughout, those of the initial guess only at the start
    pre += [h for h in dict.fromkeys(boundaries(tm.expand([c.f(tm.var("newton!x"), **args)])) + domains([st])) if h is not tm.TT]
    smooth = [h for h in smooth if h not in pre]
    pre += infinite_start(L, y)
    ini = dict(zip(L.carry, L.init))
    entered, pool = c.simulate(L, args, pre)
    samples = Samples(pool)
    reals = [v for v, i in zip(L.carry, L.isint) if not i and v.op == "v"]
    facts = [h for v in reals for h in c.facts_of(v, args)]
    # the start: derivative of the documented start, or of the k-th Newton iterate when k steps are made before the loop
    x0, d0, why, made = st, D(st, pv), None, None
    t0 = time.time()
    dy0 = tm.subst(dy, ini)
    finit = facts_init(c, L, args)
    for made in range(3):
        if not made or c.true_on(tm.and_(tm.eq(tm.subst(y, ini), x0), tm.eq(dy0, d0)), samples.pool):
            try:
                session.prove_pair(dy0, d0, pre + smooth + finit, samples, "derivative of the initial iterate")
                why = None
                break
            except Unproved as u:
                why = why or str(u.why)[:800]
        x0, d0 = at(N, x0), at(D(N, xv), x0) * d0 + at(D(N, pv), x0)
    else:
        made = 0
    entry_time = time.time() - t0
    steps = n + made if made else n
    cands = c.candidates(L, args, y, n, fx) + tangent_candidates(c, L, args, xv, pv, D, n)
    cands += [tm.le(steps, args["max_iter"])] if made else []
    cands = [h for h in cands if c.true_on(h, pool)]
    inv = [h for h in cands if c.proves(session, tm.subst(h, ini), pre + finit, samples, quick=True)]
    for _ in range(12):
        kept = [h for h in inv if c.proves(session, tm.subst(h, nxt), pre + facts + inv + [L.cond], samples, quick=True)]
        if len(kept) == len(inv):
            break
        inv = kept
    o = mk("invariant", f"initialised and preserved ({len(inv)} conjuncts)")
    o.status, o.backend = "proved", "ring+z3"
    hy = pre + facts + inv

    def attempt(kind, label, *goals):
        o = mk(kind, label)
        t0 = time.time()
        for go in goals:
            try:
                go(label)
                o.status, o.backend = "proved", "ring+z3"
                break
            except Unproved as u:
                o.status, o.why = "failed", str(u.why)[:800]
        o.time = time.time() - t0
    o = mk("start", "derivative of the initial iterate")
    o.status, o.backend, o.why, o.time = ("proved", "ring+z3", "", entry_time) if why is None else ("failed", "", why, entry_time)
    yn, dyn = tm.subst(y, nxt), tm.subst(dy, nxt)
    want = at(D(N, xv), y) * dy + at(D(N, pv), y)
    attempt("step", "derivative of one Newton step",
            lambda l: session.prove_pair(dyn, want, hy + [L.cond], samples, l),
            lambda l: session.prove_bool(tm.or_(tm.eq(dyn, want), tm.and_(tm.eq(yn, y), tm.eq(dyn, dy), absle(fx(y), args["tol"]))),
                                         hy + [L.cond], samples, l))
    attempt("exit", "at least one Newton step",
            lambda l: session.prove_bool(tm.lt(tm.ZERO, steps), hy + [tm.not_(L.cond)], samples, l))
    o = mk("defined", "no operation of the derived program leaves its domain")
    try:
        cnt = session.prove_defined([x for x in L.init if not x.isb], pre + finit, samples, "init")
        cnt += session.prove_defined([t for t in L.next if not t.isb] + [y, dy], hy + [L.cond], samples, "body")
        o.status, o.backend, o.count = "proved", "z3", cnt
    except Unproved as u:
        o.status, o.why = "failed", str(u.why)[:800]
    bad = [o for o in obls if o.status != "proved"]
    if bad:
        refute_solver(c, f, pname, bad[0])
    else:
        o = mk("runtime", "eager derivative agrees with the implicit derivative")
        o.status, o.backend = "proved", "run time"
        o.count = refute_solver(c, f, pname, o, n=60)
        if o.witness:
            o.status, o.why = "failed", "real execution contradicts the contract"
    if not entered:
        raise RuntimeError("vacuous: the loop body was never entered")
    return obls


def tangent_candidates(c, L, args, xv, pv, D, n):
    """derivatives of values cached in the loop state"""
    reals = [v for v, i in zip(L.carry, L.isint) if not i and v.op == "v"]
    out = []
    fx, sl = c.f(xv, **args), c.slope(xv, **args)
    for gx in (fx, sl, fx / sl, -fx / sl):
        gd, gp = D(gx, xv), D(gx, pv)
        for d in reals:
            for t in reals:
                for u in reals:
                    if u is not t and u is not d and t is not d:
                        e = tm.eq(u, tm.subst(gd, {xv: d}) * t + tm.subst(gp, {xv: d}))
                        out += [e, tm.or_(tm.le(n, tm.ZERO), e)]
    return out if len(reals) <= 8 else []


def refute_solver(c, f, pname, o, n=400):
    """derivative of the real solver (tolerance 1e-10) against the implicit derivative at its result"""
    rng = np.random.default_rng(23 + SEED)
    base = [p for p in c.params if p.name not in ("tol", "max_iter")]
    env = {tm.var(p.name): c.draw_param(p, rng, n) for p in base}
    if c.extra_samples:
        c.extra_samples(env, rng, n, False)
    for v in env:       # points where the start is already accepted
        if str(v.val) in ("deltat", "N", "M"):
            env[v] = np.where(rng.random(n) < 0.15, rng.choice([1e-9, -1e-9, 1e-8, 0.0], n), env[v])
    cons = {p.name: C(tm.var(p.name)) for p in base}
    cons["tol"], cons["max_iter"] = C(1e-6), C(c.budget[1])
    ok = np.ones(n, bool)
    for h in c.pre(**cons):
        ok &= np.broadcast_to(np.asarray(tm.evaluate_np([h], env)[0], bool), (n,))
    if tm.var("alpha") in env:
        ok &= np.abs(env[tm.var("alpha")]) > 1e-2
    env = {k: v[ok] for k, v in env.items()}
    names = [p.name for p in base]
    vals = [env[tm.var(x)] for x in names]
    k = names.index(pname)
    a = {p.name: tm.lift(cons[p.name][()]) for p in c.params}
    xv, pv = tm.var("x!"), tm.var(pname)
    num = tm.diff(c.f(xv, **a), pv, None, rules())
    count = 0
    for tol, slack in ((1e-6, 5e-2), (1e-11, 1e-4)):
        h = lambda *v: jax.jvp(lambda w: f(**{m: (w if i == k else z) for i, (m, z) in enumerate(zip(names, v))}, tol=tol), (v[k],), (jnp.ones(()),))
        try:
            x, dx = [np.asarray(z) for z in jax.jit(lambda a: jax.lax.map(lambda v: h(*v), a))([jnp.asarray(v) for v in vals])]
        except Exception as e:
            o.witness = {"kind": "exception", "error": f"{type(e).__name__}: {str(e)[:300]}", "inputs": {m: float(v[0]) for m, v in zip(names, vals)}}
            return count
        e2 = {**env, xv: x}
        fv, sv, nv = [np.broadcast_to(np.asarray(t, float), x.shape) for t in tm.evaluate_np([c.f(xv, **a), c.slope(xv, **a), num], e2)]
        with np.errstate(all="ignore"):
            ref = -nv / sv
            good = np.isfinite(x) & np.isfinite(ref) & (np.abs(fv) <= 1e-6) & (np.abs(ref) < 1e4) & (sv > 5e-2) & (np.abs(x) < 50)
            bad = good & ~(np.abs(dx - ref) <= slack * (1 + np.abs(ref)))
        count += int(good.sum())
        for j in np.nonzero(bad)[0][:1]:
            o.witness = {"kind": "solver derivative", "with respect to": pname, "inputs": {m: float(v[j]) for m, v in zip(names, vals)}, "tol": tol,
                         "got": float(dx[j]), "expected": float(ref[j])}
            return count
    return count


def newton_derivative(session):
    """N = x - f/s with s = df/dx:  (dN/dx) dx + dN/dp = -fp/s + (f/s) (s_x dx + s_p)/s   (f/s is the correction made)"""
    x, p, dx = tm.var("x"), tm.var("p"), tm.var("dx")
    ext = {"f_": lambda a: [tm.fn("s_", *a), tm.fn("fp_", *a)], "s_": lambda a: [tm.fn("sx_", *a), tm.fn("sp_", *a)]}
    F_, s, fp, sx, sp = [tm.fn(n, x, p) for n in ("f_", "s_", "fp_", "sx_", "sp_")]
    N = x - F_ / s
    lhs = tm.diff(N, x, None, ext) * dx + tm.diff(N, p, None, ext)
    rhs = -fp / s + (F_ / s) * (sx * dx + sp) / s
    o = Obl("lemma", "newton_derivative", "lemma", "implicit derivative up to the last correction")
    v = {t: tm.var(f"v{i}") for i, t in enumerate((F_, s, fp, sx, sp))}
    lhs, rhs, sv = tm.subst([lhs, rhs, s], v)
    rng = np.random.default_rng(0)
    smp = Samples({t: rng.uniform(0.5, 2, 200) for t in tm.free_vars(lhs, rhs)})
    try:
        session.prove_pair(lhs, rhs, [tm.not_(tm.eq(sv, tm.ZERO))], smp, o.label)
        o.status, o.backend = "proved", "ring+z3"
    except Unproved as u:
        o.status, o.why = "failed", str(u.why)[:500]
    return [o]


# ---------------------------------------------------------------------- scheduling
def job(spec):
    """one unit of work in a worker process: (function, [(mode, index)...])"""
    import sys
    sys.setrecursionlimit(20000)
    name, units = spec
    session = _session()
    c0 = session.cases
    t0 = time.time()
    obls = []
    for mode, j in units:
        try:
            if mode == "solver":
                obls += solver(session, name, j)
            elif mode == "vacuity":
                obls += vacuity(session, name)
                if name.startswith("ufunc"):
                    obls += ulemma(session, name)
            else:
                obls += check(session, name, mode, j)
        except Exception as e:
            o = Obl(name, mode, "verify", f"internal {j}")
            o.status, o.why = "failed", f"{type(e).__name__}: {str(e)[:400]}"
            obls.append(o)
        if any(o.status == "failed" and o.witness for o in obls):
            break
    from . import smt
    return name, obls, session.cases - c0, time.time() - t0, dict(getattr(smt, "STATS", {}))


_S = []


def _session():
    if not _S:
        _S.append(Session())
        _S[0].limit = max(_S[0].limit, 60)      # eight workers share the machine
    return _S[0]


def start(tier):
    import sys
    sys.setrecursionlimit(20000)
    os.environ["VERIF_TIER"] = tier
    from . import boot
    boot.load()
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    import contracts      # noqa: F401


def jobs(names):
    out = []
    for n in names:
        c = REGISTRY[n]
        if isinstance(c, SolverContract):
            out += [(n, [("solver", p.name)]) for p in c.params if p.name not in ("tol", "max_iter")]
            continue
        sym = c.symbols({p.name: tuple(p.core) for p in c.params}, set())
        spec = c.spec(**sym)
        flat = [x for s in (spec if isinstance(spec, tuple) else (spec,)) for x in _o(s).ravel()]
        if any(tm.lift(t).isb for t in flat):
            continue
        size = {"forward": sum(int(np.prod(p.core)) for p in c.params), "reverse": len(flat)}
        units = [("vacuity", 0)] + [(m, j) for m in modes(n) for j in range(size[m])]
        k = HEAVY.get(n, len(units))
        out += [(n, units[a:a + k]) for a in range(0, len(units), k)]
    order = ["solve_kepler_uni", "dxdx0", "kepler", "rv2coe"]
    return sorted(out, key=lambda j: order.index(j[0]) if j[0] in order else 9)


def run_jobs(session, todo, workers=None):
    obls = []
    session.units = getattr(session, "units", {})
    with cf.ProcessPoolExecutor(workers or min(8, os.cpu_count() or 1), mp_context=mp_.get_context("spawn"),
                                initializer=start, initargs=(TIER,)) as pool:
        fs = [pool.submit(job, j) for j in todo]
        for f in cf.as_completed(fs):
            name, ob, cases, dt, st = f.result()
            obls += ob
            session.cases += cases
            n, t = session.units.get(name, (0, 0.0))
            session.units[name] = (n + len(ob), t + dt)
            if any(o.status == "failed" and o.witness for o in ob):
                break
        pool.shutdown(wait=True, cancel_futures=True)
    return sorted(obls, key=lambda o: o.name)


def derivatives(session, names=None):
    """closed-form functions: forward and reverse derivatives"""
    return run_jobs(session, jobs([n for n in subjects() if n != "kepler" and (names is None or n in names)]))


def propagation(session, names=None):
    """derivatives through the iterative solvers and the propagator that rests on them"""
    sel = [n for n, c in REGISTRY.items() if isinstance(c, SolverContract)] + ["kepler"] + [f"ufunc{k}" for k in range(6)]
    return newton_derivative(session) + run_jobs(session, jobs([n for n in sel if names is None or n in names]))
