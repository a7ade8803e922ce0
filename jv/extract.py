"""Mechanical extraction: the jaxpr JAX stages out of the real function -> element-level terms.

Nothing is dropped except (a) floating-point rounding/overflow (reals instead of float64; narrowing
conversions are recorded as precision obligations) and (b) bodies of contracted callees, which are
replaced by their contracts (modular verification).
"""
from __future__ import annotations
from fractions import Fraction
import inspect
import itertools
import sys
import types

import numpy as np
import jax
import jax.numpy as jnp
from jax import lax

from . import terms as tm
from .terms import T, lift

VC = "vc::"


class Unsupported(Exception):
    pass


class LoopRec:
    """One while/scan loop met during extraction."""

    def __init__(self):
        self.name = ""
        self.init = []      # flat list of terms (last one: ghost step counter)
        self.carry = []     # flat list of variables (arbitrary iteration)
        self.exit = []      # flat list of variables (after the loop)
        self.next = []      # flat list of terms over carry
        self.cond = None    # bool term over carry
        self.isint = []     # per component
        self.test = None    # jaxpr of the loop test
        self.body_ctx = None


class Ctx:
    def __init__(self, contracts=None, modular=True):
        self.contracts = contracts or {}
        self.modular = modular
        self.narrowing = []      # descriptions of precision-losing conversions
        self.loops = []
        self.calls = []          # (callee name, args, outs) met at call sites
        self.facts = []          # facts contributed by relational callee contracts
        self.fresh = itertools.count()
        self.unroll = 64         # longer loops are summarised by an arbitrary state
        self.prims = set()
        self.neqns = 0

    def fv(self, hint):
        return tm.var(f"{hint}#{next(self.fresh)}")


def obj(shape, gen):
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        a[i] = gen(i)
    return a


def const_array(x):
    x = np.asarray(x)
    if x.dtype == bool:
        return obj(x.shape, lambda i: tm.TT if x[i] else tm.FF)
    if np.issubdtype(x.dtype, np.integer):
        return obj(x.shape, lambda i: tm.q(int(x[i])))
    if np.issubdtype(x.dtype, np.floating):
        if x.dtype != np.float64:
            return obj(x.shape, lambda i: tm.snap(float(str(x[i]))))
        return obj(x.shape, lambda i: tm.snap(float(x[i])))
    raise Unsupported(f"constant dtype {x.dtype}")


def symbolic(name, shape):
    """Symbolic input array named name with elements name, name_0, name_01..."""
    if shape == ():
        return obj((), lambda i: tm.var(name))
    return obj(shape, lambda i: tm.var(name + "_" + "".join(map(str, i))))


_UN = {"sin": "sin", "cos": "cos", "tan": "tan", "exp": "exp", "log": "log", "sinh": "sinh", "cosh": "cosh",
       "tanh": "tanh", "asinh": "asinh", "acosh": "acosh", "atanh": "atanh", "acos": "acos", "asin": "asin",
       "atan": "atan", "floor": "floor", "ceil": "ceil", "cbrt": "cbrt", "abs": "abs", "sign": "sign",
       "expm1": "expm1", "log1p": "log1p", "exp2": "exp2"}


def _vec(f, nin=1):
    return np.frompyfunc(f, nin, 1)


def _arr(x):
    return x if isinstance(x, np.ndarray) else np.array(x, dtype=object)


def _bc(f, *arrs):
    arrs = np.broadcast_arrays(*arrs)
    out = np.empty(arrs[0].shape, dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = f(*[a[i] for a in arrs])
    return out


_STRUCT = {"broadcast_in_dim", "reshape", "squeeze", "slice", "transpose", "concatenate", "stack", "rev", "pad",
           "expand_dims", "gather", "dynamic_slice", "split", "tile", "copy", "copy_p", "unstack"}


def _is_const(a):
    return all(x.op in ("q", "tt", "ff") for x in a.ravel())


def _to_np(a, dtype):
    out = np.empty(a.shape, dtype=dtype)
    for i in np.ndindex(*a.shape):
        x = a[i]
        out[i] = (x is tm.TT) if x.isb else (int(x.val) if np.issubdtype(dtype, np.integer) else float(x.val))
    return out


def _sum(xs):
    return tm.add(*xs) if xs else tm.ZERO


class Interp:
    def __init__(self, ctx: Ctx):
        self.ctx = ctx

    def run(self, jaxpr, consts, args):
        env = {}

        def read(v):
            if type(v).__name__ == "Literal":
                return const_array(v.val)
            return env[v]

        for v, c in zip(jaxpr.constvars, consts):
            env[v] = c if isinstance(c, np.ndarray) and c.dtype == object else const_array(c)
        assert len(jaxpr.invars) == len(args), (len(jaxpr.invars), len(args))
        for v, a in zip(jaxpr.invars, args):
            env[v] = a
        for eqn in jaxpr.eqns:
            ins = [read(v) for v in eqn.invars]
            outs = self.eqn(eqn, ins)
            for v, o in zip(eqn.outvars, outs):
                if type(v).__name__ != "DropVar":
                    o = _arr(o)
                    assert o.shape == tuple(v.aval.shape), (eqn.primitive.name, o.shape, v.aval.shape)
                    env[v] = o
        return [read(v) for v in jaxpr.outvars]

    def closed(self, cj, args):
        return self.run(cj.jaxpr, cj.consts, args)

    # ------------------------------------------------------------------
    def eqn(self, eqn, ins):
        name = eqn.primitive.name
        p = eqn.params
        self.ctx.prims.add(name)
        self.ctx.neqns += 1
        if name in _UN:
            f = _UN[name]
            return [_bc(lambda x: tm.fn(f, x), ins[0])]
        m = getattr(self, "p_" + name.replace("-", "_"), None)
        if m is not None:
            return m(eqn, ins, p)
        if name in _STRUCT:
            return self.structural(eqn, ins)
        raise Unsupported(f"primitive {name}")

    # ---- structural primitives: run them for real on element ids
    def structural(self, eqn, ins):
        name = eqn.primitive.name
        table = {0: None}
        ids = []
        data_positions = range(len(ins))
        index_positions = ()
        if name == "gather":
            data_positions, index_positions = (0,), (1,)
        elif name == "dynamic_slice":
            data_positions, index_positions = (0,), tuple(range(1, len(ins)))
        n = 1
        for k, a in enumerate(ins):
            if k in index_positions:
                if not _is_const(a):
                    if name == "dynamic_slice":
                        return self._dyn_slice(ins, tuple(eqn.params["slice_sizes"]))
                    raise Unsupported(f"{name} with symbolic indices")
                ids.append(jnp.asarray(_to_np(a, np.dtype(eqn.invars[k].aval.dtype))))
                continue
            idarr = np.empty(a.shape, dtype=np.int64)
            for i in np.ndindex(*a.shape):
                table[n] = a[i]
                idarr[i] = n
                n += 1
            ids.append(jnp.asarray(idarr))
        params = dict(eqn.params)
        if name == "gather":
            params["fill_value"] = 0
        res = eqn.primitive.bind(*ids, **params)
        if not eqn.primitive.multiple_results:
            res = [res]
        out = []
        for r in res:
            r = np.asarray(r)
            o = np.empty(r.shape, dtype=object)
            for i in np.ndindex(*r.shape):
                o[i] = table[int(r[i])] if int(r[i]) else tm.NAN
            out.append(o)
        return out

    def _dyn_slice(self, ins, sizes):
        """symbolic start positions (clamped): selection among all positions"""
        op, *st = ins
        rng = [range(n - k + 1) for n, k in zip(op.shape, sizes)]
        out = None
        for pos in itertools.product(*rng):
            piece = op[tuple(slice(a, a + k) for a, k in zip(pos, sizes))]
            if out is None:
                out = piece
                continue
            c = tm.TT
            for a, s in zip(pos, st):
                s = s[()]
                c = tm.and_(c, self._at(a, s, rng, pos, st))
            out = _bc(lambda x, y: tm.ite(c, x, y), piece, out)
        return [out]

    def _at(self, a, s, rng, pos, st):
        d = [i for i, (p, q) in enumerate(zip(pos, st)) if q[()] is s and p == a][0]
        hi = rng[d][-1]
        if a == 0:
            return tm.le(s, tm.ZERO)
        return tm.le(tm.q(a), s) if a == hi else tm.eq(s, tm.q(a))

    # ---- arithmetic
    def _isint(self, eqn):
        dt = eqn.outvars[0].aval.dtype
        return np.issubdtype(dt, np.integer)

    def p_add(self, eqn, ins, p): return [_bc(tm.add, *ins)]
    def p_add_any(self, eqn, ins, p): return [_bc(tm.add, *ins)]
    def p_sub(self, eqn, ins, p): return [_bc(lambda a, b: tm.add(a, tm.neg(b)), *ins)]
    def p_mul(self, eqn, ins, p): return [_bc(tm.mul, *ins)]
    def p_neg(self, eqn, ins, p): return [_bc(tm.neg, *ins)]

    def p_div(self, eqn, ins, p):
        if self._isint(eqn):
            return [_bc(lambda a, b: tm.fn("trunc", tm.div(a, b)), *ins)]
        return [_bc(tm.div, *ins)]

    def p_rem(self, eqn, ins, p):
        return [_bc(lambda a, b: a - b * tm.fn("trunc", tm.div(a, b)), *ins)]

    def p_integer_pow(self, eqn, ins, p): return [_bc(lambda a: tm.power(a, p["y"]), *ins)]
    def p_square(self, eqn, ins, p): return [_bc(lambda a: tm.power(a, 2), *ins)]
    def p_one_minus_square(self, eqn, ins, p): return [_bc(lambda a: tm.add(tm.ONE, tm.neg(tm.power(a, 2))), *ins)]
    def p_sqrt(self, eqn, ins, p): return [_bc(tm.sqrt, *ins)]
    def p_rsqrt(self, eqn, ins, p): return [_bc(lambda a: tm.power(a, Fraction(-1, 2)), *ins)]
    def p_reciprocal(self, eqn, ins, p): return [_bc(lambda a: tm.power(a, -1), *ins)]
    def p_logistic(self, eqn, ins, p): return [_bc(lambda a: tm.power(1 + tm.fn("exp", -a), -1), *ins)]

    def p_pow(self, eqn, ins, p):
        return [_bc(lambda a, b: tm.power(a, b), *ins)]

    def p_atan2(self, eqn, ins, p): return [_bc(lambda a, b: tm.fn("atan2", a, b), *ins)]
    def p_max(self, eqn, ins, p): return [_bc(lambda a, b: tm.fn("max", a, b), *ins)]
    def p_min(self, eqn, ins, p): return [_bc(lambda a, b: tm.fn("min", a, b), *ins)]
    def p_round(self, eqn, ins, p): return [_bc(lambda a: tm.fn("round", a), *ins)]
    def p_clamp(self, eqn, ins, p):
        def f(lo, x, hi):
            if lo is tm.ONE and hi.op == "q" and hi.val > 10 ** 100:
                return lo        # jax's rescaling against overflow inside derivatives: inactive below 1e150 (overflow not modelled)
            return tm.fn("min", tm.fn("max", x, lo), hi)
        return [_bc(f, *ins)]

    def p_is_finite(self, eqn, ins, p):
        return [_bc(lambda a: tm.FF if a.op in ("inf", "nan") else tm.TT, *ins)]

    def p_stop_gradient(self, eqn, ins, p): return [ins[0]]
    def p_real(self, eqn, ins, p): return [ins[0]]
    def p_empty2(self, eqn, ins, p): return [obj(tuple(eqn.outvars[0].aval.shape), lambda i: tm.NAN)]   # uninitialised
    def p_copy(self, eqn, ins, p): return [ins[0]]
    def p_optimization_barrier(self, eqn, ins, p): return list(ins)
    def p_reduce_precision(self, eqn, ins, p):
        if p.get("mantissa_bits", 52) < 52:
            self.ctx.narrowing.append(f"reduce_precision to {p.get('mantissa_bits')} bits")
        return [ins[0]]

    # ---- comparisons, booleans
    def p_lt(self, eqn, ins, p): return [_bc(tm.lt, *ins)]
    def p_le(self, eqn, ins, p): return [_bc(tm.le, *ins)]
    p_lt_to, p_le_to = p_lt, p_le       # total order: the same on the reals
    def p_gt(self, eqn, ins, p): return [_bc(lambda a, b: tm.lt(b, a), *ins)]
    def p_ge(self, eqn, ins, p): return [_bc(lambda a, b: tm.le(b, a), *ins)]
    def p_eq(self, eqn, ins, p): return [_bc(tm.eq, *ins)]
    def p_ne(self, eqn, ins, p): return [_bc(lambda a, b: tm.not_(tm.eq(a, b)), *ins)]

    def _boolop(self, eqn, ins, f):
        if eqn.outvars[0].aval.dtype != np.dtype(bool):
            raise Unsupported("bitwise integer op")
        return [_bc(f, *ins)]

    def p_and(self, eqn, ins, p): return self._boolop(eqn, ins, tm.and_)
    def p_or(self, eqn, ins, p): return self._boolop(eqn, ins, tm.or_)
    def p_not(self, eqn, ins, p): return self._boolop(eqn, ins, tm.not_)
    def p_xor(self, eqn, ins, p): return self._boolop(eqn, ins, lambda a, b: tm.not_(tm.eq(a, b)))

    def p_select_n(self, eqn, ins, p):
        c, *xs = ins
        if eqn.invars[0].aval.dtype == np.dtype(bool):
            return [_bc(lambda c, a, b: tm.ite(c, b, a), c, *xs)]
        def pick(c, *xs):
            r = xs[-1]
            for k in range(len(xs) - 2, -1, -1):
                r = tm.ite(tm.eq(c, tm.q(k)), xs[k], r)
            return r
        return [_bc(pick, c, *xs)]

    def p_convert_element_type(self, eqn, ins, p):
        src = np.dtype(eqn.invars[0].aval.dtype)
        dst = np.dtype(p["new_dtype"])
        a = ins[0]
        if src == dst:
            return [a]
        if src == bool and dst != bool:
            return [_bc(lambda x: tm.ite(x, tm.ONE, tm.ZERO), a)]
        if dst == bool:
            return [_bc(lambda x: tm.not_(tm.eq(x, tm.ZERO)), a)]
        fl = lambda d: np.issubdtype(d, np.floating)
        if fl(src) and fl(dst):
            if np.finfo(dst).bits < np.finfo(src).bits and not _is_const(a):
                self.ctx.narrowing.append(f"convert {src} -> {dst}")
            return [a]
        if fl(src) and np.issubdtype(dst, np.integer):
            return [_bc(lambda x: tm.fn("trunc", x), a)]
        if np.issubdtype(src, np.integer) and fl(dst):
            if np.finfo(dst).bits < 64 and not _is_const(a):
                self.ctx.narrowing.append(f"convert {src} -> {dst}")
            return [a]
        if np.issubdtype(src, np.integer) and np.issubdtype(dst, np.integer):
            return [a]
        raise Unsupported(f"convert {src}->{dst}")

    def p_iota(self, eqn, ins, p):
        return [const_array(np.asarray(eqn.primitive.bind(*[], **p)))]

    def p_nextafter(self, eqn, ins, p):
        raise Unsupported("nextafter")

    # ---- reductions
    def _reduce(self, eqn, a, axes, f):
        axes = tuple(axes)
        rest = [d for d in range(a.ndim) if d not in axes]
        out = np.empty([a.shape[d] for d in rest], dtype=object)
        for i in np.ndindex(*out.shape):
            idx = [slice(None)] * a.ndim
            for d, k in zip(rest, i):
                idx[d] = k
            out[i] = f(list(_arr(a[tuple(idx)]).ravel()))
        return [out]

    def p_reduce_sum(self, eqn, ins, p): return self._reduce(eqn, ins[0], p["axes"], _sum)
    def p_reduce_prod(self, eqn, ins, p): return self._reduce(eqn, ins[0], p["axes"], lambda xs: tm.mul(*xs) if xs else tm.ONE)
    def p_reduce_and(self, eqn, ins, p): return self._reduce(eqn, ins[0], p["axes"], lambda xs: tm.and_(*xs))
    def p_reduce_or(self, eqn, ins, p): return self._reduce(eqn, ins[0], p["axes"], lambda xs: tm.or_(*xs))

    def p_reduce_max(self, eqn, ins, p):
        def f(xs):
            r = xs[0]
            for x in xs[1:]:
                r = tm.fn("max", r, x)
            return r
        return self._reduce(eqn, ins[0], p["axes"], f)

    def p_reduce_min(self, eqn, ins, p):
        def f(xs):
            r = xs[0]
            for x in xs[1:]:
                r = tm.fn("min", r, x)
            return r
        return self._reduce(eqn, ins[0], p["axes"], f)

    def _cum(self, ins, p, f):
        a = ins[0]
        ax, rev = p["axis"], p.get("reverse", False)
        out = np.empty(a.shape, dtype=object)
        m = np.moveaxis(a, ax, 0)
        o = np.moveaxis(out, ax, 0)
        order = range(m.shape[0] - 1, -1, -1) if rev else range(m.shape[0])
        prev = None
        for k in order:
            for i in np.ndindex(*m.shape[1:]):
                o[(k,) + i] = m[(k,) + i] if prev is None else f(o[(prev,) + i], m[(k,) + i])
            prev = k
        return [out]

    def p_cumsum(self, eqn, ins, p): return self._cum(ins, p, tm.add)
    def p_cumprod(self, eqn, ins, p): return self._cum(ins, p, tm.mul)

    def p_dot_general(self, eqn, ins, p):
        a, b = ins
        (lc, rc), (lb, rb) = p["dimension_numbers"]
        pet = p.get("preferred_element_type")
        for v in eqn.invars:
            dt = np.dtype(v.aval.dtype)
            if pet is not None and np.issubdtype(dt, np.floating) and np.finfo(pet).bits < np.finfo(dt).bits:
                self.ctx.narrowing.append(f"dot_general in {pet}")
        lf = [d for d in range(a.ndim) if d not in lc and d not in lb]
        rf = [d for d in range(b.ndim) if d not in rc and d not in rb]
        at = np.transpose(a, list(lb) + lf + list(lc))
        bt = np.transpose(b, list(rb) + rf + list(rc))
        bsh = at.shape[:len(lb)]
        lsh = at.shape[len(lb):len(lb) + len(lf)]
        rsh = bt.shape[len(rb):len(rb) + len(rf)]
        csh = at.shape[len(lb) + len(lf):]
        out = np.empty(bsh + lsh + rsh, dtype=object)
        for bi in np.ndindex(*bsh):
            for li in np.ndindex(*lsh):
                for ri in np.ndindex(*rsh):
                    out[bi + li + ri] = _sum([tm.mul(at[bi + li + ci], bt[bi + ri + ci]) for ci in np.ndindex(*csh)])
        return [out]

    def _argm(self, eqn, ins, p, better):
        (ax,) = p["axes"]
        a = np.moveaxis(ins[0], ax, -1)
        out = np.empty(a.shape[:-1], dtype=object)
        for i in np.ndindex(*out.shape):
            best, bi = a[i][0], tm.ZERO
            for k in range(1, a.shape[-1]):
                c = better(a[i][k], best)
                best, bi = tm.ite(c, a[i][k], best), tm.ite(c, tm.q(k), bi)
            out[i] = bi
        return [out]

    def p_argmax(self, eqn, ins, p): return self._argm(eqn, ins, p, lambda x, y: tm.lt(y, x))
    def p_argmin(self, eqn, ins, p): return self._argm(eqn, ins, p, lambda x, y: tm.lt(x, y))

    def p_scatter(self, eqn, ins, p): return self._scatter(eqn, ins, p, lambda old, new: new)
    def p_scatter_add(self, eqn, ins, p): return self._scatter(eqn, ins, p, tm.add)
    def p_scatter_mul(self, eqn, ins, p): return self._scatter(eqn, ins, p, tm.mul)

    def _scatter(self, eqn, ins, p, f):
        op, idx, upd = ins
        if not _is_const(idx):
            raise Unsupported("scatter with symbolic indices")
        # find, for every update element, which operand element it lands on: scatter one-hot ids
        jidx = jnp.asarray(_to_np(idx, np.dtype(eqn.invars[1].aval.dtype)))
        out = op.copy()
        flat_out = out.reshape(-1)
        uflat = upd.reshape(-1)
        sc = lax.scatter_p
        prm = dict(eqn.params)
        prm["update_jaxpr"] = None
        prm["update_consts"] = ()
        for k in range(uflat.size):
            u = np.zeros(uflat.size, dtype=np.int64)
            u[k] = 1
            base = jnp.zeros(op.shape, dtype=jnp.int64)
            r = np.asarray(lax.scatter_add_p.bind(base, jidx, jnp.asarray(u.reshape(upd.shape)), **_scatter_params(prm)))
            hits = np.nonzero(r.reshape(-1))[0]
            for h in hits:
                flat_out[h] = f(flat_out[h], uflat[k])
        return [flat_out.reshape(op.shape)]

    def p_dynamic_update_slice(self, eqn, ins, p):
        op, upd, *starts = ins
        if not all(_is_const(s) for s in starts):
            raise Unsupported("dynamic_update_slice with symbolic start")
        out = op.copy()
        st = [min(max(int(s[()].val), 0), op.shape[d] - upd.shape[d]) for d, s in enumerate(starts)]
        out[tuple(slice(s, s + n) for s, n in zip(st, upd.shape))] = upd
        return [out]

    # ---- calls
    def p_jit(self, eqn, ins, p):
        name = p.get("name", "")
        if name.startswith(VC):
            return self.call_contract(name[len(VC):], eqn, ins, p["jaxpr"])
        if name == "signbit" and len(ins) == 1 and any(e.primitive.name == "bitcast_convert_type" for e in p["jaxpr"].jaxpr.eqns):
            return [_bc(lambda a: tm.lt(a, tm.ZERO), ins[0])]      # jax.numpy's sign bit of a real number (-0.0 not modelled)
        return self.closed(p["jaxpr"], ins)

    p_pjit = p_jit

    def p_closed_call(self, eqn, ins, p): return self.closed(p["call_jaxpr"], ins)
    p_core_call = p_closed_call
    def p_custom_jvp_call(self, eqn, ins, p): return self.closed(p["call_jaxpr"], ins)
    def p_custom_vjp_call(self, eqn, ins, p):
        j = p.get("call_jaxpr") or p.get("fun_jaxpr")
        return self.closed(j, ins)
    p_custom_vjp_call_jaxpr = p_custom_vjp_call

    def p_call_hi_primitive(self, eqn, ins, p):
        h = p["_prim"]      # jax's own definition of it in terms of ordinary primitives
        j = jax.make_jaxpr(lambda *a: jax.tree_util.tree_leaves(h.expand(*jax.tree_util.tree_unflatten(h.in_tree, a))))(
            *[jax.ShapeDtypeStruct(v.aval.shape, v.aval.dtype) for v in eqn.invars])
        return self.closed(j, ins)

    def p_remat(self, eqn, ins, p): return self.run(p["jaxpr"], [], ins)
    p_checkpoint = p_remat
    p_remat2 = p_remat

    def call_contract(self, name, eqn, ins, cj):
        c = self.ctx.contracts.get(name)
        if c is not None and self.ctx.modular:
            shapes = [tuple(v.aval.shape) for v in eqn.outvars]
            dts = [np.dtype(v.aval.dtype) for v in eqn.outvars]
            outs = c.apply(self.ctx, ins, shapes, dts)
            if outs is not None:
                self.ctx.calls.append((name, ins, outs))
                return outs
        self.ctx.calls.append((name + " (inlined)", ins, None))
        return self.closed(cj, ins)

    def p_cond(self, eqn, ins, p):
        idx, *ops = ins
        branches = p["branches"]
        results = [self.closed(b, ops) for b in branches]
        out = []
        for k in range(len(results[0])):
            def pick(i, *xs):
                r = xs[-1]
                for j in range(len(xs) - 2, -1, -1):
                    c = tm.le(i, tm.ZERO) if j == 0 else tm.eq(i, tm.q(j))
                    r = tm.ite(c, xs[j], r)
                return r
            i = idx[()]
            if i.isb:
                i = tm.ite(i, tm.ONE, tm.ZERO)
            out.append(_bc(lambda *xs: pick(i, *xs), *[r[k] for r in results]))
        return out

    def p_platform_index(self, eqn, ins, p):
        ps = p["platforms"]
        k = [i for i, q in enumerate(ps) if q is not None and "cpu" in q] or [i for i, q in enumerate(ps) if q is None]
        return [np.array(tm.q(k[0]), dtype=object)]

    def p_polynomial(self, eqn, ins, p):
        x, *cs = ins        # ascending coefficients
        r = cs[-1]
        for c in reversed(cs[:-1]):
            r = _bc(lambda a, b, d: a * b + d, r, x, c)
        return [r]

    def p_sort(self, eqn, ins, p):
        if len(ins) != 1:
            raise Unsupported("sort with several operands")
        a = np.moveaxis(ins[0].copy(), p["dimension"], -1)
        n = a.shape[-1]
        for i in range(n):
            for j in range(n - 1 - i):
                lo = _bc(lambda u, v: tm.fn("min", u, v), a[..., j], a[..., j + 1])
                hi = _bc(lambda u, v: tm.fn("max", u, v), a[..., j], a[..., j + 1])
                a[..., j], a[..., j + 1] = lo, hi
        return [np.moveaxis(a, -1, p["dimension"])]

    def p_lu(self, eqn, ins, p):
        # consumed only by the linear solve below, which uses the matrix itself; anything else sees an arbitrary value
        return [obj(v.aval.shape, lambda i: self.ctx.fv("lu")) for v in eqn.outvars]

    def p_custom_linear_solve(self, eqn, ins, p):
        cl = p["const_lengths"]
        nm = cl.matvec
        mv = p["jaxprs"].matvec
        mvc = ins[:nm]
        bs = ins[sum(cl):]
        if len(bs) != 1 or bs[0].size > 16:
            raise Unsupported(f"linear solve of shape {[b.shape for b in bs]}")
        b = bs[0]
        N = b.size
        flat = list(b.ravel())
        A = [[None] * N for _ in range(N)]
        for j in range(N):
            e = np.array([tm.ONE if q == j else tm.ZERO for q in range(N)], dtype=object).reshape(b.shape)
            c = list(self.closed(mv, list(mvc) + [e])[0].ravel())
            for i in range(N):
                A[i][j] = c[i]
        seen, comps = set(), []
        for s0 in range(N):
            if s0 in seen:
                continue
            comp, todo = [], [s0]
            seen.add(s0)
            while todo:
                q = todo.pop()
                comp.append(q)
                for r in range(N):
                    if r not in seen and (A[q][r] is not tm.ZERO or A[r][q] is not tm.ZERO):
                        seen.add(r)
                        todo.append(r)
            comps.append(sorted(comp))

        def det(m):
            if len(m) == 1:
                return m[0][0]
            return tm.add(*[(-1) ** k * m[0][k] * det([r[:k] + r[k + 1:] for r in m[1:]]) for k in range(len(m))])
        out = np.empty(N, dtype=object)
        for comp in comps:
            if len(comp) > 4:
                raise Unsupported(f"linear solve with a coupled block of {len(comp)}")
            d = det([[A[i][j] for j in comp] for i in comp])
            for j in comp:
                out[j] = tm.div(det([[flat[i] if q == j else A[i][q] for q in comp] for i in comp]), d)
        return [out.reshape(b.shape)]

    # ---- loops
    def p_while(self, eqn, ins, p):
        cn, bn = p["cond_nconsts"], p["body_nconsts"]
        cc, bc, init = ins[:cn], ins[cn:cn + bn], ins[cn + bn:]
        cj, bj = p["cond_jaxpr"], p["body_jaxpr"]
        avals = [v.aval for v in bj.jaxpr.outvars]
        # concrete, short loops are simply executed
        un = self._unroll(cj, bj, cc, bc, init)
        if un is not None:
            return un
        k = len(self.ctx.loops)
        out = self._havoc(avals, init, lambda c: self.closed(cj, cc + c)[0][()], lambda c: self.closed(bj, bc + c))
        self.ctx.loops[k].test = cj
        return out

    def _unroll(self, cj, bj, cc, bc, init, limit=8):
        state = list(init)
        for _ in range(limit + 1):
            c = self.closed(cj, cc + state)[0]
            if c.shape != () or c[()] not in (tm.TT, tm.FF):
                return None
            if c[()] is tm.FF:
                return state
            state = self.closed(bj, bc + state)
        return None

    def _havoc(self, avals, init, cond, body, count=None):
        ctx = self.ctx
        L = LoopRec()
        L.name = f"loop{len(ctx.loops)}"
        nctr = len(ctx.loops)
        carry, exit_ = [], []
        for k, (a, v) in enumerate(zip(init, avals)):
            mkv = tm.bvar if np.dtype(v.dtype) == bool else tm.var
            carry.append(obj(a.shape, lambda i: mkv(f"L{nctr}c{k}" + ("_" + "".join(map(str, i)) if i else ""))))
            exit_.append(obj(a.shape, lambda i: mkv(f"L{nctr}x{k}" + ("_" + "".join(map(str, i)) if i else ""))))
            isint = np.issubdtype(np.dtype(v.dtype), np.integer)
            for i in np.ndindex(*a.shape):
                L.init.append(a[i])
                L.carry.append(carry[-1][i])
                L.exit.append(exit_[-1][i])
                L.isint.append(isint)
        g = tm.var(f"L{nctr}n")
        gx = tm.var(f"L{nctr}nx")
        ctx.loops.append(L)
        L.cond = cond(carry) if count is None else tm.lt(g, tm.q(count))
        nxt = body(carry)
        for a in nxt:
            L.next.extend(list(_arr(a).ravel()))
        L.init.append(tm.ZERO)
        L.carry.append(g)
        L.exit.append(gx)
        L.next.append(g + 1)
        L.isint.append(True)
        L.count = count
        return exit_

    def p_scan(self, eqn, ins, p):
        if "num_consts" in p:
            nc, ncar = p["num_consts"], p["num_carry"]
        else:       # newer JAX: grouped argument trees
            g = [list(x) for x in p["ft_in"].update(list(range(len(ins)))).unpack()]
            nc, ncar = len(g[0]), len(g[1])
        consts, carry, xs = ins[:nc], list(ins[nc:nc + ncar]), ins[nc + ncar:]
        cj, length = p["jaxpr"], p["length"]
        nys = len(cj.jaxpr.outvars) - ncar
        if nys == 0 and length > self.ctx.unroll and all(_is_const(x) for x in xs):
            avals = [v.aval for v in cj.jaxpr.outvars]
            def body(c):
                xr = []
                for x in xs:
                    xr.append(obj(x.shape[1:], lambda i: self.ctx.fv("scanx")))
                return self.closed(cj, consts + c + xr)
            return self._havoc(avals, carry, None, body, count=length)
        ys = [[None] * length for _ in range(nys)]
        order = range(length - 1, -1, -1) if p["reverse"] else range(length)
        for t in order:
            r = self.closed(cj, consts + carry + [_arr(x[t]) for x in xs])
            carry = r[:ncar]
            for k in range(nys):
                ys[k][t] = r[ncar + k]
        outs = list(carry)
        for k in range(nys):
            aval = cj.jaxpr.outvars[ncar + k].aval
            o = np.empty((length,) + tuple(aval.shape), dtype=object)
            for t in range(length):
                o[t] = ys[k][t] if aval.shape else _arr(ys[k][t])[()]
            outs.append(o)
        return outs


def _scatter_params(prm):
    keep = ("dimension_numbers", "indices_are_sorted", "unique_indices", "mode", "update_jaxpr", "update_consts")
    return {k: v for k, v in prm.items() if k in keep}


# ---------------------------------------------------------------------- callee wrapping
class Modular:
    """Replace contracted functions in every astrodynx namespace by named jit wrappers while tracing,
    so that a caller sees only a call to `vc::name`."""

    def __init__(self, functions):
        self.functions = functions    # name -> original function object
        self.wrappers = {}
        for name, f in functions.items():
            self.wrappers[id(f)] = (f, _wrap(name, f))
        self.depth = 0

    def patched(self, keep=None):
        return _Patch(self, keep)


class _Patch:
    def __init__(self, mod, keep):
        self.mod, self.keep, self.saved = mod, keep, []

    def __enter__(self):
        import functools
        for mname, m in list(sys.modules.items()):
            if not (mname == "astrodynx" or mname.startswith("astrodynx.")) or not isinstance(m, types.ModuleType):
                continue
            for k, v in list(vars(m).items()):
                hit = self.mod.wrappers.get(id(v))
                if hit is not None and hit[0] is v and v is not self.keep:
                    self.saved.append((m, k, v))
                    setattr(m, k, hit[1])
        return self

    def __exit__(self, *a):
        for m, k, v in self.saved:
            setattr(m, k, v)


def _wrap(name, f):
    sig = inspect.signature(f)
    names = list(sig.parameters)

    def call(*args, **kw):
        try:
            b = sig.bind(*args, **kw)
        except TypeError:
            return f(*args, **kw)
        b.apply_defaults()
        vals = [b.arguments[n] for n in names]
        if any(p.kind in (p.VAR_KEYWORD, p.VAR_POSITIONAL) for p in sig.parameters.values()):
            return f(*args, **kw)

        def inner(*vs):
            return f(*vs)
        inner.__name__ = VC + name
        inner.__qualname__ = VC + name
        return jax.jit(inner)(*vals)

    call.__wrapped__ = f
    call.__name__ = getattr(f, "__name__", name)
    return call


def trace(f, abstract_args, kwargs=None):
    """jaxpr of the real function on abstract inputs (pytrees of ShapeDtypeStruct)."""
    kwargs = kwargs or {}
    jax.clear_caches()
    return jax.make_jaxpr(lambda *a: f(*a, **kwargs), return_shape=True)(*abstract_args)


def extract(f, abstract_args, sym_args, ctx, kwargs=None):
    """Returns (list of output object arrays, output tree, out dtypes)."""
    closed, outshape = trace(f, abstract_args, kwargs)
    flat, _ = jax.tree_util.tree_flatten(sym_args, is_leaf=lambda x: isinstance(x, np.ndarray))
    outs = Interp(ctx).closed(closed, [_arr(x) for x in flat])
    dts = [np.dtype(v.aval.dtype) for v in closed.jaxpr.outvars]
    leaves, tree = jax.tree_util.tree_flatten(outshape)
    return outs, tree, dts, closed
