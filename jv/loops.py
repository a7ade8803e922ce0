"""Relational contracts of the iterative Kepler solvers: loop invariants, variant, exit condition.

The loop is extracted from the traced program of the real function (initial state, guard, body).  With y(s) the value the
function would return from loop state s, the contract is
   start    y(init)  = start(args)
   step     inv and guard       ->  y(next) = Newton(y)   (or y is already accepted and unchanged)
   exit     inv and not guard   ->  |f(y)| <= tol  or the number of iterations done >= max_iter
   variant  inv and guard       ->  iterations done < max_iter
   defined  inv (and guard)     ->  no operation of guard or body leaves its domain
The invariant is found by a Houdini fixpoint over templates; every kept conjunct is proved (initialisation, preservation).
"""
from __future__ import annotations
import itertools
import time
import zlib
import numpy as np
import jax
import jax.numpy as jnp

from . import terms as tm, extract as ex, stall
from .contract import Contract, Obl, Param, REGISTRY, F, C, _o, time_limit, SEED, TIER, SPECIAL
from .solve import Samples, Unproved, Prover


def absle(x, b):
    return tm.and_(tm.le(x, b), tm.le(tm.neg(x), b))


class SolverContract(Contract):
    """f, slope, start: callables over scalar terms (x, **args); facts(x, args): proved lemma instances for an iterate x;
    steplemma: |y - p| <= tol and y = Newton(p) implies |f(y)| <= tol (proved as a lemma)"""
    strict = True

    def __init__(self, name, path, params, f, slope, start, pre, symbol, omit, budget, facts=None, steplemma=False,
                 scale=None):
        super().__init__(name, path, params, spec=None, pre=pre, omit=omit)
        self.f, self.slope, self.start = f, slope, start
        self.symbol, self.budget = symbol, budget
        self.facts_of = facts or (lambda x, a: [])
        self.steplemma = steplemma
        self.batch = [{}]
        self.scale = scale

    # ---------------------------------------------------------------- use at call sites
    def apply(self, ctx, ins, shapes, dtypes):
        if len(ins) != len(self.params):
            return None
        d = {p.name: a for p, a in zip(self.params, ins)}
        base = [p.name for p in self.params if p.name not in ("tol", "max_iter")]
        out = F(self.symbol, *[d[n] for n in base])
        if [out.shape] != [tuple(s) for s in shapes]:
            return None
        arrs = np.broadcast_arrays(*[_o(a) for a in ins])
        conds = []
        for i in np.ndindex(*arrs[0].shape):
            e = {p.name: tm.lift(a[i]) for p, a in zip(self.params, arrs)}
            cs = self.pre(**{k: C(v) for k, v in e.items()})
            cs += [tm.le(e["tol"], tm.q(self.budget[0])), tm.le(tm.q(self.budget[1]), e["max_iter"])]
            conds += [c for c in cs if c not in conds]
        ctx.pre = getattr(ctx, "pre", [])
        ctx.pre.append((self.name, conds))
        return [out]

    # ---------------------------------------------------------------- verification
    def abstract(self, shapes, omitted):
        return {p.name: jax.ShapeDtypeStruct((), np.int64 if p.name == "max_iter" else np.float64)
                for p in self.params if p.name not in omitted}

    def verify_sig(self, session, f, lab, shapes, omitted):
        obls = []
        mk = lambda kind, label: (obls.append(Obl(self.name, lab, kind, label)), obls[-1])[1]
        args = {k: v[()] for k, v in self.symbols({p.name: () for p in self.params}, omitted).items()}
        pre = [h for h in self.pre(**{k: C(v) for k, v in args.items()}) if h is not tm.TT]
        try:
            for unroll in (8, 64):      # a loop of fixed length (static iteration limit) is kept as a loop
                ctx = ex.Ctx(session.contracts)
                ctx.unroll = unroll
                outs, tree, dts, closed = self.trace_terms(session, f, {p.name: () for p in self.params}, omitted, ctx)
                if len(ctx.loops) == 1:
                    break
        except Exception as e:
            o = mk("trace", "extract")
            o.status, o.why = "failed", f"{type(e).__name__}: {str(e)[:400]}"
            self.refute_solver(session, f, args, omitted, o)
            return obls
        session.note_calls(self.name, ctx)
        o = mk("shape", "result")
        if len(outs) != 1 or outs[0].shape != ():
            o.status, o.why = "failed", f"result {[x.shape for x in outs]}, contract: one scalar"
            o.witness = {"kind": "shape", "got": str([x.shape for x in outs])}
            return obls
        o.status, o.backend = "proved", "jaxpr"
        o = mk("precision", "float64")
        if dts[0] != np.dtype(np.float64) or ctx.narrowing:
            o.status, o.why = "failed", f"precision lost: {ctx.narrowing} {dts}"
            self.refute_solver(session, f, args, omitted, o)
            if o.witness is None and dts[0] != np.dtype(np.float64):
                o.witness = {"kind": "dtype", "got": str(dts)}
            return obls
        o.status, o.backend = "proved", "jaxpr"
        try:
            self.loop_obligations(session, ctx, outs[0][()], args, pre, mk)
        except Unproved as u:
            o = mk("loop", "structure")
            o.status, o.why = "failed", str(u.why)[:600]
        bad = [o for o in obls if o.status == "failed"]
        if bad:
            self.refute_solver(session, f, args, omitted, bad[0])
        o = mk("runtime", "eager execution agrees with the contract")
        o.status, o.backend = "proved", "run time"
        o.count = self.refute_solver(session, f, args, omitted, o, light=True)
        if o.witness:
            o.status, o.why = "failed", "real execution contradicts the contract"
        return obls

    def loop_obligations(self, session, ctx, y_exit, args, pre, mk):
        if len(ctx.loops) != 1:
            raise Unproved(f"{len(ctx.loops)} loops in the traced program (the contract is about one)")
        L = ctx.loops[0]
        n = L.carry[-1]
        to_carry = dict(zip(L.exit, L.carry))
        y = tm.subst(y_exit, to_carry)
        if any(v in L.exit for v in tm.free_vars(y)):
            raise Unproved("the result depends on something other than the final loop state")
        nxt = dict(zip(L.carry, L.next))
        ini = dict(zip(L.carry, L.init))
        tol, mxi = args["tol"], args["max_iter"]
        pre = pre + infinite_start(L, y)
        ini = dict(zip(L.carry, L.init))
        fx = lambda x: self.f(x, **args)
        newton = lambda x: x - self.f(x, **args) / self.slope(x, **args)
        snaps, pool = self.simulate(L, args, pre)
        samples = Samples(pool)
        reals = [c for c, i in zip(L.carry, L.isint) if not i and c.op == "v"]
        facts = [h for c in reals for h in self.facts_of(c, args)]
        # the start value: the loop may be entered after k >= 0 steps made before it; n counts iterations, n + k steps
        k, why = self.entry(session, tm.subst(y, ini), args, pre, samples)
        steps = n + k if k else n
        cands = self.candidates(L, args, y, n, fx) + ([tm.le(steps, mxi)] if k else [])
        cands = [c for c in cands if self.true_on(c, pool)]
        # initialisation
        inv = []
        for c in cands:
            if self.proves(session, tm.subst(c, ini), pre + facts_init(self, L, args), samples, quick=True):
                inv.append(c)
        # preservation (Houdini)
        rounds = 0
        while True:
            rounds += 1
            kept = [c for c in inv if self.proves(session, tm.subst(c, nxt), pre + facts + inv + [L.cond], samples, quick=True)]
            if len(kept) == len(inv):
                break
            inv = kept
            if rounds > 12:
                raise Unproved("no inductive invariant among the templates")
        self.last_inv = inv
        o = mk("invariant", f"initialised and preserved ({len(inv)} conjuncts)")
        o.status, o.backend, o.count = "proved", "ring+z3", len(inv)
        o.why = "; ".join(tm.show(c, 5)[:160] for c in inv)

        def obligation(kind, label, goal, hyps):
            o = mk(kind, label)
            t0 = time.time()
            try:
                session.prove_bool(goal, hyps, samples, label)
                o.status, o.backend = "proved", "ring+z3"
            except Unproved as u:
                o.status, o.why = "failed", str(u.why)[:1000]
            o.time = time.time() - t0
        o = mk("start", "initial iterate")
        o.status, o.backend, o.why = ("proved", "ring+z3", "") if why is None else ("failed", "", why)
        if k:
            obligation("start", f"{k} step(s) before the loop within the budget", tm.le(tm.lift(k), mxi), pre)
        hy = pre + facts + inv
        yn = tm.subst(y, nxt)
        # one iteration
        o = mk("step", "each iteration is one Newton step")
        try:
            try:
                session.prove_pair(yn, newton(y), hy + [L.cond], samples, "step")
            except Unproved:
                session.prove_bool(tm.or_(tm.eq(yn, newton(y)), tm.and_(tm.eq(yn, y), absle(fx(y), tol))), hy + [L.cond],
                                   samples, "step")
            o.status, o.backend = "proved", "ring+z3"
        except Unproved as u:
            o.status, o.why = "failed", str(u.why)[:1000]
        # exit
        goal = [tm.le(mxi, steps), absle(fx(y), tol)]
        if self.steplemma:
            prev = [c for c in reals if c is not y]
            for a, b in itertools.permutations(reals, 2):
                prev += [a + b, a - b]
            goal += [tm.and_(tm.eq(y, newton(p)), absle(y - p, tol)) for p in prev
                     if self.true_on(tm.or_(tm.le(n, tm.ZERO), tm.eq(y, newton(p))), pool)]
        obligation("exit", "residual within tolerance or iteration budget used", tm.or_(*goal), hy + [tm.not_(L.cond)])
        obligation("variant", "terminates within the iteration budget", tm.lt(steps, mxi), hy + [L.cond])
        o = mk("guard", "one value per iteration, also under vmap")
        o.status, o.backend = "proved", "jaxpr"
        op = stall.rounds(L.test) if L.test is not None else None
        if op is not None:      # its two copies in a vmapped loop may differ: look for a batch that never ends
            cnt, w = self.stalls()
            o.backend, o.count = f"bounded: {cnt} vmapped batches of {stall.N}", cnt
            session.bounded.append(f"{self.name}: the loop test rounds ({op}); vmapped runs on {cnt} batches ended")
            if w:
                o.status, o.witness = "failed", w
                o.why = f"the loop test rounds ({op}): its two evaluations in a vmapped loop disagree and the loop never ends"
        o = mk("defined", "no operation leaves its domain")
        try:
            cnt = session.prove_defined([x for x in L.init], pre + facts_init(self, L, args), samples, "init")
            conds = [L.cond] if not L.cond.isb else [tm.ite(L.cond, tm.ONE, tm.ZERO)]
            cnt += session.prove_defined(conds, hy, samples, "guard")
            cnt += session.prove_defined([t for t in L.next if not t.isb] + [y], hy + [L.cond], samples, "body")
            o.status, o.backend, o.count = "proved", "z3", cnt
        except Unproved as u:
            o.status, o.why = "failed", str(u.why)[:1000]
        for cal, cs in getattr(ctx, "pre", []):
            cs = [c for c in cs if c is not tm.TT]
            if cs:
                obligation("requires", f"call {cal}", tm.and_(*cs), hy)
        # vacuity: the invariant is satisfiable with the loop running and after it
        o = mk("vacuity", "loop body reachable")
        if not snaps:
            raise Unproved("vacuous: the loop body was never entered on the samples")
        o.status, o.backend = "proved", "guard"

    def stalls(self):
        if not hasattr(self, "_stalls"):
            self._stalls = stall.search(self)
        return self._stalls

    def newton_iterate(self, x, k, args):
        for _ in range(k):
            x = x - self.f(x, **args) / self.slope(x, **args)
        return x

    def entry(self, session, y0, args, pre, samples, most=2):
        """(k, None): the loop starts from the k-th Newton iterate of the documented start; (0, why not)"""
        why = None
        for k in range(most + 1):
            want = self.newton_iterate(self.start(**args), k, args)
            if k and not self.true_on(tm.eq(y0, want), samples.pool):
                continue
            try:
                session.prove_pair(y0, want, pre, samples, "start")
                return k, None
            except Unproved as u:
                why = why or str(u.why)[:1000]
        return 0, why

    def proves(self, session, goal, hyps, samples, quick=False):
        if goal is tm.TT:
            return True
        p = Prover(hyps, samples, z3ms=1500 if quick else session.z3ms)
        try:
            with time_limit(10):
                p.prove(goal, "inv")
            return True
        except Unproved:
            return False
        finally:
            session.cases += p.leaves

    def true_on(self, c, pool):
        m = len(next(iter(pool.values())))
        try:
            # equalities are compared numerically
            v = approx_bool(c, pool, m)
        except (KeyError, ValueError):
            return False
        return v is None or bool(v.all())

    def simulate(self, L, args, pre, n=400):
        """states met by the extracted loop on random arguments"""
        rng = np.random.default_rng(zlib.crc32(self.name.encode()) + SEED)
        env = {}
        for p in self.params:
            t = args[p.name]
            if t.op == "v":
                env[t] = self.draw_param(p, rng, n)
        if self.extra_samples:
            self.extra_samples(env, rng, n, False)
        ok = np.ones(n, bool)
        for h in pre:
            if BIG not in tm.free_vars(h):
                ok &= np.broadcast_to(np.asarray(tm.evaluate_np([h], env)[0], bool), (n,)) if env else True
        env = {k: v[ok] for k, v in env.items()}
        m = int(ok.sum()) if env else 1
        if any(x is BIG for x in L.init):
            env[BIG] = np.full(m, 1e307)
        state = [np.broadcast_to(np.asarray(x, dtype=float), (m,)) for x in tm.evaluate_np(L.init, env)]
        alive = np.ones(m, bool)
        cols = {k: [] for k in list(env) + list(L.carry)}
        entered = 0
        for it in range(6):
            e2 = {**env, **{c: (s.astype(bool) if c.op == "bv" else s) for c, s in zip(L.carry, state)}}
            for k in cols:
                cols[k].append(np.asarray(e2[k], float)[alive])
            g = np.broadcast_to(np.asarray(tm.evaluate_np([L.cond], e2)[0], bool), (m,)) & alive
            if not g.any():
                break
            entered += int(g.sum())
            nx = tm.evaluate_np(L.next, e2)
            state = [np.broadcast_to(np.asarray(x, float), (m,)) for x in nx]
            alive = g
        pool = {k: np.concatenate(v) for k, v in cols.items()}
        fin = np.all([np.isfinite(v) for v in pool.values()], axis=0)
        return entered, {k: v[fin] for k, v in pool.items()}

    def draw_param(self, p, rng, n):
        from .contract import draw
        if p.name == "max_iter":
            return rng.integers(1, 12, n).astype(float)
        return draw(p.dist, rng, n)

    # ---------------------------------------------------------------- invariant templates
    def candidates(self, L, args, y, n, fx):
        out = []
        tol, mxi = args["tol"], args["max_iter"]
        comps = list(zip(L.carry[:-1], L.init[:-1], L.next[:-1], L.isint[:-1]))
        out.append(tm.le(tm.ZERO, n))
        out.append(tm.le(n, mxi))
        for c, i, nx, isint in comps:
            if c.isb:
                for d, _, _, k in comps:
                    if not k and not d.isb:
                        conv = absle(fx(d), tol)
                        out += [tm.iff(c, conv), tm.iff(c, tm.not_(conv)), tm.or_(tm.not_(c), conv), tm.or_(c, conv)]
                out += [tm.or_(tm.lt(tm.ZERO, n), tm.iff(c, i))]
                continue
            out.append(tm.eq(c, i))
            out.append(tm.or_(tm.lt(tm.ZERO, n), tm.eq(c, i)))
            if isint:
                out += [tm.eq(c, n + i), tm.eq(c, i - n), tm.le(c, mxi), tm.le(tm.ZERO, c)]
        reals = [(c, i, nx) for c, i, nx, k in comps if not k and not c.isb]
        # cached values of another component
        slope = lambda x: self.slope(x, **args)
        for (c, _, _), (d, _, _) in itertools.permutations(reals, 2):
            for g in (fx(d), slope(d), fx(d) / slope(d), tm.neg(fx(d)) / slope(d), tm.fn("abs", fx(d))):
                out += [tm.eq(c, g), tm.or_(tm.le(n, tm.ZERO), tm.eq(c, g))]
        # values of the previous iteration expressed by the current state
        back = {}
        for (c, _, nx) in reals:
            for (d, _, nd) in reals:
                if nd is c and c not in back:
                    back[c] = d
        for (c, _, _) in reals:
            if c in back:
                continue
            for (a, _, na), (b, _, nb) in itertools.permutations(reals, 2):
                for e, ne in ((a + b, na + nb), (a - b, na - nb)):
                    if ne is c:
                        back[c] = e
        # linear shift a = next_a +- next_b found by ring normalisation
        from .ring import Ring
        for (c, _, _) in reals:
            if c in back:
                continue
            for (a, _, na), (b, _, nb) in itertools.permutations(reals, 2):
                for e, ne in ((a + b, na + nb), (a - b, na - nb)):
                    try:
                        rg = Ring(hyps=[], samples={})
                        if rg.is_zero(rg.sub(rg.conv(ne), rg.conv(c))):
                            back[c] = e
                    except Exception:
                        pass
        ib = {c: c - 1 for c, i, nx, k in comps if k and nx is c + 1}
        ib[n] = n - 1
        for (c, _, nx) in reals:
            fv = [v for v in tm.free_vars(nx) if v in L.carry]
            if all(v in back or v in ib for v in fv):
                t = tm.subst(nx, {**back, **ib})
                if t is not c:
                    out += [tm.eq(c, t), tm.or_(tm.le(n, tm.ZERO), tm.eq(c, t))]
        seen, res = set(), []
        for c in out:
            if c.id not in seen and c is not tm.TT:
                seen.add(c.id)
                res.append(c)
        return res

    # ---------------------------------------------------------------- the real code against the contract
    def refute_solver(self, session, f, args, omitted, o, light=False):
        """Runs the real solver; sets o.witness on an input that contradicts the contract. Returns points tried."""
        rng = np.random.default_rng(zlib.crc32((self.name + o.sig).encode()) + 17 * SEED)
        base = [p for p in self.params if p.name not in ("tol", "max_iter") and p.name not in omitted]
        count = 0
        names = [p.name for p in base]
        dflt = {p.name: p.default for p in self.params}

        def value(t):
            t = tm.lift(t)
            return float(tm.evaluate_np([t], {})[0])

        def mkrun(tolv, mx):
            kw = {}
            if "tol" not in omitted and tolv is not None:
                kw["tol"] = tolv
            if "max_iter" not in omitted and mx is not None:
                kw["max_iter"] = mx
            g = lambda *v: f(**dict(zip(names, v)), **kw)
            return g, kw
        nonstatic = []
        n = 150 if light else 1500
        noisy = "alpha" in names      # cancellation near alpha = 0
        tolvals = [None] if "tol" in omitted else [1e-6, 1e-3] + ([] if light else [1e-9, 0.1, 1.0]) + \
            ([] if noisy else [1e-18] if light else [1e-14, 1e-18])
        mxs = [None] if "max_iter" in omitted else ([1, 3, self.budget[1]] if light else [1, 2, 3, 5, self.budget[1], 200])
        for special in ((False,) if light else (False, True)):
            env = {}
            for p in base:
                v = self.draw_param(p, rng, n)
                if special:
                    mode = rng.integers(0, 4, n)
                    v = np.where(mode == 0, rng.choice(SPECIAL, n), v)
                    v = np.where(mode == 1, v * np.exp(rng.uniform(-5, 5, n)), v)
                env[tm.var(p.name)] = v
            if self.extra_samples:
                self.extra_samples(env, rng, n, special)
            for tolv in tolvals:
                for mx in mxs:
                    tv = tolv if tolv is not None else value(dflt["tol"])
                    mv = mx if mx is not None else int(value(dflt["max_iter"]))
                    full = dict(env)
                    cons = {p.name: C(tm.var(p.name)) for p in self.params if p.name not in omitted and p.name not in ("tol", "max_iter")}
                    for p in self.params:
                        if p.name in omitted:
                            cons[p.name] = C(p.default)
                    cons["tol"], cons["max_iter"] = C(float(tv)), C(int(mv))
                    ok = np.ones(n, bool)
                    for h in self.pre(**cons):
                        ok &= np.broadcast_to(np.asarray(tm.evaluate_np([h], full)[0], bool), (n,))
                    if noisy and tm.var("r0") in full:
                        ok &= np.abs(full[tm.var("alpha")] * full[tm.var("r0")]) > 1e-4
                    if not ok.any():
                        continue
                    vals = [full[tm.var(p.name)][ok] for p in base]
                    g, kw = mkrun(tolv, mx)
                    try:
                        res = np.asarray(jax.jit(lambda a: jax.lax.map(lambda v: g(*v), a))([jnp.asarray(v) for v in vals]))
                    except Exception:
                        try:
                            res = np.asarray([float(g(*[float(v[j]) for v in vals])) for j in range(min(40, len(vals[0])))])
                            vals = [v[:len(res)] for v in vals]
                        except Exception as e:
                            o.witness = {"kind": "exception", "error": f"{type(e).__name__}: {str(e)[:300]}",
                                         "inputs": {k: float(v[0]) for k, v in zip(names, vals)}, "options": kw}
                            return count
                    count += len(res)
                    a = {p.name: tm.lift(cons[p.name][()]) for p in self.params}
                    e2 = dict(zip([tm.var(x) for x in names], vals))
                    seqs = self.reference(a, e2, len(res), mv)
                    best = np.full(len(res), np.inf)
                    xv = tm.var("x!")
                    rs = np.abs(np.broadcast_to(np.asarray(tm.evaluate_np([self.f(xv, **a)], {**e2, xv: res})[0], float), res.shape))
                    sl = np.abs(np.broadcast_to(np.asarray(tm.evaluate_np([self.slope(xv, **a)], {**e2, xv: res})[0], float), res.shape))
                    mag = np.maximum.reduce([np.abs(np.broadcast_to(v, res.shape)) for v in vals] + [np.ones(len(res))])
                    tight = not light and not noisy      # (only once an obligation has failed)
                    slack = (2e-15 if tight else 1e-11) * (mag + np.abs(res) * (1 + sl) + (self.scale(a, e2, res) if self.scale else 0))
                    within = rs <= tv * (1 + 1e-9) + slack
                    # the k-th Newton iterate for k = budget (only when the residual is not within tolerance)
                    last = seqs[mv] if mv < len(seqs) else None
                    fin = np.isfinite(last) if last is not None else np.zeros(len(res), bool)
                    isN = fin & (np.abs(res - np.where(fin, last, 0)) <= 1e-7 * (1 + np.abs(res))) if last is not None else fin
                    if tight and last is not None:      # a converged orbit: equal up to rounding
                        at = np.abs(np.broadcast_to(np.asarray(tm.evaluate_np([self.f(xv, **a)], {**e2, xv: np.where(fin, last, 0)})[0], float), res.shape))
                        isN &= (at > slack) | (rs <= 4 * slack) | (np.abs(res) > 1e3)
                    if last is not None:
                        bad = ~within & fin & ~isN & (np.abs(last) < 1e6)
                    else:
                        bad = np.zeros(len(res), bool)
                    # stopping too early / on too few steps is visible too: result within tolerance but not on the Newton orbit
                    orbit = np.zeros(len(res), bool)
                    for s in seqs:
                        orbit |= np.abs(res - s) <= 1e-7 * (1 + np.abs(res))
                    allfin = np.all([np.isfinite(s) for s in seqs], axis=0)
                    off = within & ~orbit & allfin & (tv <= 1e-2)
                    for why, m in (("the residual exceeds the tolerance although the iteration budget was not used as "
                                    "Newton steps", bad), ("the result is not an iterate of the method", off)):
                        idx = np.nonzero(m)[0]
                        for j in idx[:5]:
                            if self.chaotic(a, e2, j, mv, seqs):
                                continue
                            o.witness = {"kind": "solver", "why": why, "inputs": {k: float(v[j]) for k, v in zip(names, vals)},
                                         "options": {k: float(x) for k, x in kw.items()}, "got": float(res[j]),
                                         "residual": float(rs[j]), "tolerance": float(tv),
                                         "newton_iterates": [float(s[j]) for s in seqs[:8]]}
                            return count
        return count

    def reference(self, a, env, m, mv):
        """float64 Newton iterates of the contract"""
        xv = tm.var("x!")
        x = np.broadcast_to(np.asarray(tm.evaluate_np([self.start(**a)], env)[0], float), (m,))
        st = xv - self.f(xv, **a) / self.slope(xv, **a)
        seqs = [x]
        for _ in range(min(int(mv), 200)):
            x = np.broadcast_to(np.asarray(tm.evaluate_np([st], {**env, xv: x})[0], float), (m,))
            seqs.append(x)
        return seqs

    def chaotic(self, a, env, j, mv, seqs):
        """the Newton orbit itself is too sensitive at this point to compare floating-point runs"""
        e = {k: np.asarray([np.broadcast_to(v, (len(seqs[0]),))[j]] * 5) for k, v in env.items()}
        rng = np.random.default_rng(3)
        e = {k: v * (1 + 1e-14 * rng.standard_normal(5)) for k, v in e.items()}
        s2 = self.reference(a, e, 5, mv)
        for s, r in zip(seqs, s2):
            if not np.all(np.abs(r - s[j]) <= 1e-9 * (1 + np.abs(s[j]))):
                return True
        return False


BIG = tm.var("inf!")


def infinite_start(L, y):
    """a component that starts as infinity and is only compared: any number that exceeds 1e300 and the other start values by 1e300"""
    used = tm.free_vars(y, *[t for t in L.next])
    hit = False
    for i, (c, t) in enumerate(zip(L.carry, L.init)):
        if t is tm.INF and c not in used:
            L.init[i] = BIG
            hit = True
    if not hit:
        return []
    far = tm.lift(10 ** 300)
    reals = [t for t, k in zip(L.init, L.isint) if not k and not t.isb and t is not BIG]
    return [tm.lt(far, BIG)] + [h for t in reals for h in (tm.lt(t + far, BIG), tm.lt(far - t, BIG))]


def facts_init(self, L, args):
    out = []
    for c, i, k in zip(L.carry[:-1], L.init[:-1], L.isint[:-1]):
        if not k and not i.isb:
            out += self.facts_of(i, args)
    return out


def approx_bool(c, pool, m):
    """truth value on the pool with a tolerance on equalities (None: undetermined)"""
    b = lambda x: np.broadcast_to(np.asarray(x), (m,))
    if c.op == "eq":
        x, y = (b(v).astype(float) for v in tm.evaluate_np(list(c.args), pool))
        with np.errstate(all="ignore"):
            return (np.abs(x - y) <= 1e-7 * (1 + np.abs(x) + np.abs(y))) | ~np.isfinite(x) | ~np.isfinite(y)
    if c.op == "and":
        return np.all([approx_bool(a, pool, m) for a in c.args], axis=0)
    if c.op == "or":
        return np.any([approx_bool(a, pool, m) for a in c.args], axis=0)
    if c.op == "not" and c.args[0].op not in ("eq", "and", "or"):
        return ~approx_bool(c.args[0], pool, m)
    if c.op == "not":
        return ~approx_bool(c.args[0], pool, m)
    return b(tm.evaluate_np([c], pool)[0]).astype(bool)
