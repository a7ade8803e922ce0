"""Contracts (sidecar), their application at call sites, and verification of the real functions."""
from __future__ import annotations
import importlib
import itertools
import json
import os
import signal
import threading
import time
import traceback
import zlib
from fractions import Fraction

import numpy as np
import jax
import jax.numpy as jnp

from . import terms as tm, extract as ex, smt
from .terms import T
from .solve import Prover, Samples, Unproved

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")

REGISTRY: dict[str, "Contract"] = {}


# ------------------------------------------------------------------ helpers for writing specs on object arrays
def vf(f):
    u = np.frompyfunc(f, 1, 1)
    return lambda a: _o(u(a))


def _o(a):
    return a if isinstance(a, np.ndarray) else np.array(a, dtype=object)


def F(name, *arrs):
    arrs = np.broadcast_arrays(*[_o(a) for a in arrs])
    out = np.empty(arrs[0].shape, dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = tm.fn(name, *[tm.lift(a[i]) for a in arrs])
    return out


def sqrt(a): return F("sqrt", a)
def sin(a): return F("sin", a)
def cos(a): return F("cos", a)
def C(x):
    return np.array(tm.lift(x), dtype=object)


def P(a, e):
    a = _o(a)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        out[i] = tm.power(a[i], e)
    return out


def where(c, a, b):
    c, a, b = np.broadcast_arrays(_o(c), _o(a), _o(b))
    out = np.empty(c.shape, dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = tm.ite(c[i], a[i], b[i])
    return out


def cmp(op, a, b):
    a, b = np.broadcast_arrays(_o(a), _o(b))
    out = np.empty(a.shape, dtype=object)
    f = {"lt": tm.lt, "le": tm.le, "eq": tm.eq, "gt": lambda x, y: tm.lt(y, x), "ge": lambda x, y: tm.le(y, x),
         "and": tm.and_, "or": tm.or_}[op]
    for i in np.ndindex(*out.shape):
        out[i] = f(tm.lift(a[i]), tm.lift(b[i]))
    return out


def dot(a, b):
    """sum over the last axis"""
    p = _o(a) * _o(b)
    out = np.empty(p.shape[:-1], dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = tm.add(*p[i])
    return out


def norm(a):
    return sqrt(dot(a, a))


def cross(a, b):
    a, b = np.broadcast_arrays(_o(a), _o(b))
    c = lambda i, j: a[..., i] * b[..., j] - a[..., j] * b[..., i]
    return np.stack([_o(c(1, 2)), _o(c(2, 0)), _o(c(0, 1))], axis=-1)


def allof(arr, f):
    return [f(x) for x in _o(arr).ravel()]


def pos(arr): return allof(arr, lambda x: tm.lt(tm.ZERO, x))
def nonneg(arr): return allof(arr, lambda x: tm.le(tm.ZERO, x))
def nonzero(arr): return allof(arr, lambda x: tm.not_(tm.eq(x, tm.ZERO)))


# ------------------------------------------------------------------ random values
def draw(dist, rng, n):
    if callable(dist):
        return dist(rng, n)
    if dist == "pos":
        return np.exp(rng.uniform(np.log(0.3), np.log(3.0), n))
    if dist == "any":
        return rng.uniform(-2.0, 2.0, n)
    if dist == "angle":
        return rng.uniform(-7.0, 7.0, n)
    if dist == "ecc":       # elliptic
        return rng.uniform(0.0, 0.95, n)
    if dist == "ecchyp":
        return 1.0 + np.exp(rng.uniform(np.log(0.05), np.log(4.0), n))
    if dist == "small":
        return rng.uniform(-0.3, 0.3, n)
    if isinstance(dist, tuple):
        return rng.uniform(dist[0], dist[1], n)
    raise ValueError(dist)


SPECIAL = np.array([0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 3.0, 1e-3, -1e-3, 1e-6, -1e-6, 1e-9, -1e-9, 10.0, -10.0, 100.0,
                    -100.0, 1e4, -1e4, np.pi, -np.pi, np.pi / 2, 2 * np.pi, 0.25, 1e6, 0.1, 1.5, 4.0, 0.9, 0.99, 0.999,
                    1.0001, 1.01, 20.0, 50.0, 6378.0, 398600.4418, 7.5, 86400.0])


class Param:
    def __init__(self, name, dist="any", core=(), default=None, tree=None):
        self.name, self.dist, self.core, self.default, self.tree = name, dist, core, default, tree


class Obl:
    """one proof obligation and its outcome"""

    def __init__(self, contract, sig, kind, label):
        self.contract, self.sig, self.kind, self.label = contract, sig, kind, label
        self.status = "open"     # proved | failed
        self.why = ""
        self.witness = None      # failing input replayed on the real code
        self.backend = ""
        self.time = 0.0

    @property
    def name(self):
        return f"{self.contract}[{self.sig}].{self.kind}.{self.label}"


class Contract:
    """name    unique name
    path    'module:function' of the real function
    params  list of Param (order of the signature)
    spec    callable(**arrays) -> array | tuple  (the postcondition: result == spec)
    pre     callable(**arrays) -> list of bool terms
    batch   list of batch-shape assignments {param: batch shape} to verify
    """

    def __init__(self, name, path, params, spec, pre=None, batch=None, omit=None, dtypes=None, extra_samples=None,
                 tree_arg=None, functional=True, call=None, note="", keep_bool=False, tol=2e-9, opaque=None, npool=2500, nconf=None, longer=()):
        self.opaque, self.npool, self.nconf = opaque, npool, nconf
        self.longer = longer        # further unbatched shapes of one argument the same contract covers: (parameter, shape)
        self.name, self.path, self.params, self.spec = name, path, params, spec
        self.pre = pre or (lambda **k: [])
        self.batch = batch
        self.omit = omit if omit is not None else []
        self.extra_samples = extra_samples
        self.functional = functional
        self.call = call
        self.note = note
        self.tol = tol
        REGISTRY[name] = self

    # -------------------------------------------------------------- the real function
    def func(self):
        mod, fn = self.path.split(":")
        m = importlib.import_module(mod)
        return getattr(m, fn)

    def invoke(self, f, vals):
        """vals: dict param -> value (omitted params missing)"""
        if self.call is not None:
            return self.call(f, vals)
        return f(**{p.name: vals[p.name] for p in self.params if p.name in vals})

    # -------------------------------------------------------------- call-site use of the contract
    def apply(self, ctx, ins, shapes, dtypes):
        if not self.functional or self.call is not None or len(ins) != len(self.params):
            return None
        try:
            if self.opaque:
                out = F(self.opaque, *ins)
            else:
                out = self.spec(**{p.name: a for p, a in zip(self.params, ins)})
        except Exception:
            return None
        outs = [_o(o) for o in (out if isinstance(out, tuple) else (out,))]
        if [o.shape for o in outs] != [tuple(s) for s in shapes]:
            return None
        ctx.facts.extend(self.post_facts(ins, outs))
        # the caller must establish the precondition
        ctx.pre = getattr(ctx, "pre", [])
        ctx.pre.append((self.name, self.pre(**{p.name: a for p, a in zip(self.params, ins)})))
        return outs

    def post_facts(self, ins, outs):
        return []

    # -------------------------------------------------------------- signatures
    def signatures(self):
        """yield (label, {param: full shape}, omitted set)"""
        sigs = self.batch if self.batch is not None else [{}, {"*": (2,)}]
        out = []
        for b in sigs:
            d = {}
            for p in self.params:
                bs = b.get(p.name, b.get("*", ()))
                d[p.name] = tuple(bs) + tuple(p.core)
            om = set(b.get("-", ()))
            lab = ",".join(f"{k}:{'x'.join(map(str, v)) or 's'}" for k, v in d.items() if k not in om)
            out.append((lab, d, om))
        for om in self.omit:
            d = {p.name: tuple(p.core) for p in self.params}
            out.append(("omit " + "+".join(sorted(om)), d, set(om)))
        return out

    def longer_signatures(self):
        base = {p.name: tuple(p.core) for p in self.params}
        return [(f"{n}:{'x'.join(map(str, sh))}", {**base, n: tuple(sh)}, set()) for n, sh in self.longer]

    def symbols(self, shapes, omitted):
        vals = {}
        for p in self.params:
            if p.name in omitted:
                vals[p.name] = C(p.default)
            else:
                vals[p.name] = ex.symbolic(p.name, shapes[p.name])
        return vals

    def pool(self, shapes, omitted, pre, n=None, rng=None, special=False, consts=()):
        rng = rng or np.random.default_rng(zlib.crc32(self.name.encode()) + SEED)
        n = n or self.npool
        env = {}
        for p in self.params:
            if p.name in omitted:
                continue
            sym = ex.symbolic(p.name, shapes[p.name])
            for x in sym.ravel():
                v = draw(p.dist, rng, n)
                if special:
                    sp = np.concatenate([SPECIAL, np.asarray(list(consts), dtype=float)]) if len(consts) else SPECIAL
                    mode = rng.integers(0, 5, n)
                    v = np.where(mode == 0, rng.choice(sp, n), v)
                    v = np.where(mode == 1, v * np.exp(rng.uniform(-7, 7, n)), v)
                    if len(consts):
                        v = np.where(mode == 2, rng.choice(np.asarray(list(consts), dtype=float), n)
                                     * rng.choice([1, -1, 1 + 1e-6, 1 - 1e-6, 1.01, 0.99, 2, 0.5], n), v)
                env[x] = v
        if self.extra_samples is not None:
            self.extra_samples(env, rng, n, special)
        ok = np.ones(n, dtype=bool)
        for h in pre:
            if all(v in env for v in tm.free_vars(h)):
                ok &= np.broadcast_to(np.asarray(tm.evaluate_np([h], env)[0], dtype=bool), (n,))
        return {k: v[ok] for k, v in env.items()}

    # -------------------------------------------------------------- verification of the real body
    def verify(self, session, callee=False):
        obls = []
        f = None
        try:
            f = self.func()
        except Exception as e:
            o = Obl(self.name, "-", "resolve", "function")
            o.status, o.why = "failed", f"cannot resolve {self.path}: {e!r}"
            o.witness = {"kind": "import", "error": repr(e)}
            return [o]
        for lab, shapes, omitted in self.signatures() + ([] if callee else self.longer_signatures()):
            if callee and omitted:
                continue        # default values are bound at the call site
            obls.extend(self.verify_sig(session, f, lab, shapes, omitted))
            if session.fail_fast and any(o.status == "failed" and o.witness for o in obls):
                break
        return obls

    def abstract(self, shapes, omitted):
        return {p.name: jax.ShapeDtypeStruct(shapes[p.name], np.float64) for p in self.params if p.name not in omitted}

    def trace_terms(self, session, f, shapes, omitted, ctx):
        names = [p.name for p in self.params if p.name not in omitted]
        ab = self.abstract(shapes, omitted)
        sym = self.symbols(shapes, omitted)

        def g(*vals):
            return self.invoke(f, dict(zip(names, vals)))
        with session.modular.patched(keep=f):
            outs, tree, dts, closed = ex.extract(g, [ab[n] for n in names], [sym[n] for n in names], ctx)
        return outs, tree, dts, closed

    def rename_map(self, shapes, omitted, out_idx, core_nd):
        """variables of one batch element -> scalar names"""
        mp = {}
        nb = len(out_idx) - core_nd
        bidx = out_idx[:nb] if core_nd else out_idx
        for p in self.params:
            if p.name in omitted:
                continue
            sh = shapes[p.name]
            nbp = len(sh) - len(p.core)
            bs = sh[:nbp]
            extra = 0
            while core_nd and not p.core and nbp > len(bidx) and bs[-1] == 1:
                bs, nbp, extra = bs[:-1], nbp - 1, extra + 1      # (N, 1) against (N, 3)
            tail = tuple(bidx[len(bidx) - nbp:]) if nbp else ()
            if len(tail) != nbp:
                return None
            tail = tuple(0 if s == 1 else i for s, i in zip(bs, tail))
            if any(i >= s for s, i in zip(bs, tail)):
                return None
            a = ex.symbolic(p.name, sh)
            c = ex.symbolic(p.name, tuple(p.core))
            tail = tail + (0,) * extra
            sub = a[tail] if tail else a
            for x, y in zip(_o(sub).ravel(), c.ravel()):
                mp[x] = y
        return mp

    def verify_sig(self, session, f, lab, shapes, omitted):
        obls = []
        sym = self.symbols(shapes, omitted)
        spec = self.spec(**sym)
        specs = [_o(o) for o in (spec if isinstance(spec, tuple) else (spec,))]
        pre = [h for h in self.pre(**sym) if h is not tm.TT]
        ctx = ex.Ctx(session.contracts)
        mk = lambda kind, label: Obl(self.name, lab, kind, label)
        try:
            outs, tree, dts, closed = self.trace_terms(session, f, shapes, omitted, ctx)
        except Exception as e:
            o = mk("trace", "extract")
            o.status = "failed"
            o.why = f"{type(e).__name__}: {str(e)[:400]}"
            self.refute_real(session, f, shapes, omitted, specs, pre, o)
            return [o]
        session.note_calls(self.name, ctx)
        # result shapes and dtypes
        o = mk("shape", "result")
        want = [x.shape for x in specs]
        got = [x.shape for x in outs]
        wantb = [all(e.isb for e in x.ravel()) for x in specs]
        gotb = [d == np.dtype(bool) for d in dts]
        if want != got:
            o.status, o.why = "failed", f"result shapes {got}, contract {want}"
            o.witness = {"kind": "shape", "shapes": {k: list(v) for k, v in shapes.items()}, "got": str(got),
                         "expected": str(want)}
        elif wantb != gotb:
            o.status, o.why = "failed", f"result kinds {dts}"
            o.witness = {"kind": "dtype", "got": str(dts)}
        else:
            o.status, o.backend = "proved", "jaxpr"
        obls.append(o)
        if o.status == "failed":
            return obls
        o = mk("precision", "float64")
        bad = [str(d) for d in dts if d not in (np.dtype(np.float64), np.dtype(bool))]
        if ctx.narrowing or bad:
            o.status, o.why = "failed", f"precision lost: {sorted(set(ctx.narrowing))} {bad}"
            if bad:
                o.witness = {"kind": "dtype", "got": str(dts)}
            else:
                self.refute_real(session, f, shapes, omitted, specs, pre, o)
        else:
            o.status, o.backend = "proved", "jaxpr"
        obls.append(o)
        # functional postcondition, element by element
        core_nd = [0] * len(specs)
        hyps = pre + ctx.facts
        pool = None
        samples = None
        for k, (sp, co) in enumerate(zip(specs, outs)):
            for i in np.ndindex(*sp.shape):
                o = mk("ensures", f"result{k}{list(i)}" if sp.shape else f"result{k}")
                obls.append(o)
                t0 = time.time()
                s_t, c_t, h_t = tm.lift(sp[i]), co[i], hyps
                key = None
                mp = None
                vs = set(tm.free_vars(s_t, c_t))
                for cnd in session.core_nds(self):
                    mp = self.rename_map(shapes, omitted, i, cnd)
                    if mp is not None and vs <= set(mp):
                        break
                    mp = None
                if mp:
                    s_r, c_r = tm.subst([s_t, c_t], mp)
                    keep = set(mp)
                    h_r = [tm.subst(h, mp) for h in hyps if set(tm.free_vars(h)) <= keep]
                else:
                    s_r, c_r, h_r = s_t, c_t, hyps
                key = (self.name, s_r, c_r, frozenset(h_r))
                if key in session.proved:
                    o.status, o.backend = "proved", "instance of an obligation already discharged"
                    continue
                if mp:
                    csh = {p.name: tuple(p.core) for p in self.params}
                else:
                    csh = shapes
                pk = (mp is not None)
                if samples is None or samples[0] != pk:
                    samples = (pk, Samples(self.pool(csh, omitted, h_r)))
                try:
                    session.prove_pair(c_r, s_r, h_r, samples[1], o.label)
                    o.status = "proved"
                    o.backend = "ring+z3"
                    session.proved.add(key)
                except Unproved as u:
                    o.status, o.why = "failed", str(u.why)[:1500]
                    self.refute(session, f, shapes, omitted, specs, outs, pre, o, u)
                o.time = time.time() - t0
                if o.status == "failed" and o.witness and session.fail_fast:
                    return obls
        # preconditions of callees
        for cal, conds in getattr(ctx, "pre", []):
            conds = [c for c in conds if c is not tm.TT]
            if not conds:
                continue
            o = mk("requires", f"call {cal}")
            t0 = time.time()
            o.status, o.backend = "proved", "z3"
            obls.append(o)
            for c in conds:
                key = ("pre", self.name, c, frozenset(hyps))
                if key in session.proved:
                    continue
                try:
                    smp = Samples(self.pool(shapes, omitted, pre))
                    session.prove_bool(c, hyps, smp, o.label)
                    session.proved.add(key)
                except Unproved as u:
                    if getattr(self.session_contract(session, cal), "strict", False):
                        o.status, o.why = "failed", f"precondition of {cal} not established: " + str(u.why)[:500]
                        self.refute_real(session, f, shapes, omitted, specs, pre, o)
                        break
                    # an unprovable precondition of a callee only matters if the value is wrong or undefined:
                    # the callee is then inlined and its definedness obligations are used instead
                    o.status = "inlined"
                    o.why = str(u.why)[:300]
                    break
            o.time = time.time() - t0
        if any(x.status == "inlined" for x in obls):
            ctx2 = ex.Ctx(session.contracts, modular=False)
            outs_def = self.trace_terms(session, f, shapes, omitted, ctx2)[0]
            for x in obls:
                if x.status == "inlined":
                    x.status, x.backend = "proved", "callee inlined (definedness below)"
        else:
            outs_def = outs
        # definedness of every operation on every selected path
        o = mk("defined", "no operation leaves its domain")
        t0 = time.time()
        ts = [x for a in outs_def for x in a.ravel()]
        key = ("def", self.name, tuple(sorted({t.id for t in ts})), frozenset(hyps))
        try:
            smp = Samples(self.pool(shapes, omitted, pre))
            n = session.prove_defined(ts, hyps, smp, o.label)
            o.status, o.backend, o.count = "proved", "z3", n
        except Unproved as u:
            o.status, o.why = "failed", str(u.why)[:1500]
            self.refute(session, f, shapes, omitted, specs, outs, pre, o, u, undefined=True)
        o.time = time.time() - t0
        obls.append(o)
        # run-time conformance of the real (eager) code with the contract
        o = mk("runtime", "eager execution agrees with the contract")
        t0 = time.time()
        self.conformance(session, f, shapes, omitted, specs, pre, o)
        o.time = time.time() - t0
        obls.append(o)
        # vacuity guards
        o = mk("vacuity", "requires satisfiable, perturbed goal rejected")
        self.vacuity(session, specs, outs, hyps, shapes, omitted, o)
        obls.append(o)
        return obls

    def session_contract(self, session, name):
        return session.contracts.get(name)

    # -------------------------------------------------------------- guards
    def vacuity(self, session, specs, outs, hyps, shapes, omitted, o):
        pool = self.pool(shapes, omitted, hyps)
        n = len(next(iter(pool.values()))) if pool else 1
        if pool and n < 5:
            raise RuntimeError(f"vacuous: only {n} sample points satisfy the precondition of {self.name}")
        for sp, co in zip(specs, outs):
            if sp.size and not tm.lift(sp.ravel()[0]).isb:
                t = co.ravel()[0]
                try:
                    session.prove_pair(t, tm.lift(sp.ravel()[0]) + tm.ONE, hyps, Samples(pool), "perturbed")
                except Unproved:
                    break
                raise RuntimeError(f"vacuous: a perturbed postcondition of {self.name} was accepted")
        o.status, o.backend = "proved", "guard"

    # -------------------------------------------------------------- execution of the real code
    def real(self, f, env, shapes, omitted, conv=None):
        vals = {}
        for p in self.params:
            if p.name in omitted:
                continue
            sym = ex.symbolic(p.name, shapes[p.name])
            a = np.empty(sym.shape)
            for i in np.ndindex(*sym.shape):
                a[i] = env[sym[i]]
            vals[p.name] = conv(a) if conv else jnp.asarray(a)
        out = self.invoke(f, vals)
        leaves = jax.tree_util.tree_leaves(out)
        return [np.asarray(x) for x in leaves], {k: np.asarray(v).tolist() for k, v in vals.items()}

    def compare(self, f, env, shapes, omitted, specs, tol=None):
        """(ok, detail) real float64 execution vs contract evaluated in 40 digits"""
        tol = tol or self.tol
        try:
            outs, vals = self.real(f, env, shapes, omitted)
        except Exception as e:
            return False, {"kind": "exception", "error": f"{type(e).__name__}: {str(e)[:300]}",
                           "inputs": {str(k.val): float(v) for k, v in env.items()}}
        flat = [tm.lift(x) for s in specs for x in s.ravel()]
        ref = tm.evaluate_mp(flat, {k: float(v) for k, v in env.items()})
        got = [x for a in outs for x in np.asarray(a).ravel()]
        if len(got) != len(ref):
            return False, {"kind": "shape", "inputs": vals, "got": [list(np.shape(x)) for x in outs]}
        mag = 0.0
        for r in ref:
            if not isinstance(r, bool) and r == r and abs(r) < 1e300:
                mag = max(mag, float(abs(r)))
        if any(not isinstance(r, bool) and r == r and abs(r) > 1e100 for r in ref):
            return True, None           # overflow is not modelled
        for r, g, t in zip(ref, got, flat):
            if isinstance(r, bool):
                if bool(g) != r:
                    return False, {"kind": "value", "inputs": vals, "got": bool(g), "expected": r}
                continue
            if r != r:
                continue
            d = abs(float(g) - float(r))
            if not d <= tol * (abs(float(r)) + mag + 1e-3):
                return False, {"kind": "value", "inputs": vals, "got": [np.asarray(a).tolist() for a in outs],
                               "expected": [str(x) if isinstance(x, bool) else float(x) for x in ref],
                               "difference": d}
        return True, None

    def point(self, pool, j):
        return {k: float(v[j]) for k, v in pool.items()}

    def conformance(self, session, f, shapes, omitted, specs, pre, o):
        n = session.conf_points if self.nconf is None or TIER != "quick" else self.nconf
        rng = np.random.default_rng(zlib.crc32((self.name + o.sig).encode()) + 7 * SEED)
        pool = self.pool(shapes, omitted, pre, n=max(400, 4 * n), rng=rng)
        m = len(next(iter(pool.values()))) if pool else 1
        o.status, o.backend, o.count = "proved", "run time", 0
        for j in range(min(n, m)):
            ok, det = self.compare(f, self.point(pool, j), shapes, omitted, specs)
            o.count += 1
            if not ok:
                # ill-conditioned point? ask whether nearby doubles change the reference as much
                if det["kind"] == "value" and self.illconditioned(self.point(pool, j), specs, det):
                    continue
                o.status, o.why, o.witness = "failed", "real execution contradicts the contract", det
                return

    def illconditioned(self, env, specs, det):
        flat = [tm.lift(x) for s in specs for x in s.ravel()]
        if any(t.isb for t in flat):
            # boolean result: flips under relative perturbations of 1e-9 are boundary cases
            base = tm.evaluate_mp(flat, env)
            rng = np.random.default_rng(0)
            for _ in range(8):
                e2 = {k: v * (1 + 1e-9 * rng.standard_normal()) for k, v in env.items()}
                if tm.evaluate_mp(flat, e2) != base:
                    return True
            return False
        base = tm.evaluate_mp(flat, env)
        rng = np.random.default_rng(0)
        sens = 0.0
        for _ in range(6):
            e2 = {k: v * (1 + 1e-12 * rng.choice([-1, 1])) for k, v in env.items()}
            r2 = tm.evaluate_mp(flat, e2)
            sens = max([sens] + [float(abs(a - b)) for a, b in zip(base, r2) if a == a and b == b])
        return det.get("difference", np.inf) < 50 * sens

    # -------------------------------------------------------------- refutation
    def refute(self, session, f, shapes, omitted, specs, outs, pre, o, u, undefined=False):
        cf = [x for a in outs for x in a.ravel()]
        sf = [tm.lift(x) for a in specs for x in a.ravel()]
        consts = harvest(cf)
        cands = []
        leaf = getattr(u, "leaf", None)
        if leaf is not None and leaf.samples:
            m = len(next(iter(leaf.samples.values())))
            for j in range(min(m, 6)):
                cands.append({k: float(v[j]) for k, v in leaf.samples.items() if k.op == "v"})
        if leaf is not None:
            try:
                from .ring import Ring
                md = smt.model(Ring(hyps=leaf.hyps, samples=leaf.samples), leaf.hyps, 2000)
                if md:
                    env = dict(md)
                    for v, t in leaf.subs:
                        try:
                            env[v] = float(tm.evaluate_mp([t], env)[0])
                        except Exception:
                            pass
                    cands.append(env)
            except Exception:
                pass
        for special, seed, n in ((False, 11, 3000), (True, 12, 20000), (True, 13, 20000)):
            rng = np.random.default_rng(seed + SEED)
            pool = self.pool(shapes, omitted, pre, n=n, rng=rng, special=special, consts=consts)
            if not pool:
                continue
            m = len(next(iter(pool.values())))
            if m == 0:
                continue
            try:
                cv = tm.evaluate_np(cf, pool)
                sv = tm.evaluate_np(sf, pool)
            except KeyError:
                break
            score = np.zeros(m)
            for a, b, t in zip(cv, sv, sf):
                a = np.broadcast_to(np.asarray(a), (m,))
                b = np.broadcast_to(np.asarray(b), (m,))
                if t.isb:
                    score = np.maximum(score, (a != b) * 1.0)
                else:
                    with np.errstate(all="ignore"):
                        d = np.abs(a - b) / (np.abs(b) + 1e-3)
                        d = np.where(np.isfinite(b) & ~np.isfinite(a), 1.0, d)
                        d = np.where(np.isfinite(d), d, 0.0)
                    score = np.maximum(score, np.minimum(d, 1.0))
            for j in np.argsort(-score)[:8]:
                if score[j] > 1e-12:
                    cands.append(self.point(pool, j))
        names = set()
        for p in self.params:
            if p.name not in omitted:
                names |= set(ex.symbolic(p.name, shapes[p.name]).ravel())
        for env in cands:
            env = dict(env)
            for v in names:     # element of a batch that the scalar case does not mention
                if v not in env:
                    base = str(v.val)
                    env[v] = self._guess(v, env, shapes, omitted)
            env = {k: float(x) for k, x in env.items() if k in names}
            try:
                if not all(tm.evaluate_mp(pre, env)):
                    continue
            except Exception:
                continue
            for tol in (self.tol, 1e-11):
                ok, det = self.compare(f, env, shapes, omitted, specs, tol)
                if not ok and not (det["kind"] == "value" and self.illconditioned(env, specs, det)):
                    det["symbolic"] = o.why[:300]
                    o.witness = det
                    return
        # the real code on fresh points
        self.refute_real(session, f, shapes, omitted, specs, pre, o, n=60)

    def _guess(self, v, env, shapes, omitted):
        for p in self.params:
            if p.name in omitted:
                continue
            sh = shapes[p.name]
            a = ex.symbolic(p.name, sh)
            c = ex.symbolic(p.name, tuple(p.core))
            for i in np.ndindex(*a.shape):
                if a[i] is v:
                    k = i[len(sh) - len(p.core):]
                    if all(i < n for i, n in zip(k, c.shape)) and c[k] in env:
                        return env[c[k]]
        return 1.0

    def refute_real(self, session, f, shapes, omitted, specs, pre, o, n=80):
        for special in (False, True):
            rng = np.random.default_rng(99 + SEED)
            pool = self.pool(shapes, omitted, pre, n=600 if not special else 4000, rng=rng, special=special)
            m = len(next(iter(pool.values()))) if pool else 0
            for j in range(min(n, m)):
                env = self.point(pool, j)
                ok, det = self.compare(f, env, shapes, omitted, specs)
                if not ok and not (det["kind"] == "value" and self.illconditioned(env, specs, det)):
                    det["symbolic"] = o.why[:300]
                    o.witness = det
                    return


def harvest(ts):
    """numeric constants occurring in comparisons of the extracted code (boundary candidates)"""
    out = set()
    for s in tm.subterms(*ts):
        if s.op in ("lt", "le", "eq"):
            for x in tm.subterms(*s.args):
                if x.op == "q":
                    out.add(float(x.val))
                    out.add(-float(x.val))
    return sorted(out)


class time_limit:
    """wall-clock limit for one obligation (nested uses keep the outer one)"""
    active = False

    def __init__(self, seconds):
        self.s = seconds

    def __enter__(self):
        self.mine = not time_limit.active and threading.current_thread() is threading.main_thread()
        if self.mine:
            time_limit.active = True

            self.fired = False

            def handler(sig, frame):
                self.fired = True
                raise Unproved(f"time limit of {self.s} s")
            self.old = signal.signal(signal.SIGALRM, handler)
            signal.setitimer(signal.ITIMER_REAL, self.s, 1.0)      # repeated: an exception in a finaliser is swallowed

    def __exit__(self, *a):
        if self.mine:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, self.old)
            time_limit.active = False
            if self.fired and a[0] is not None and not issubclass(a[0], Unproved):      # wrapped by foreign code
                raise Unproved(f"time limit of {self.s} s")
        return False


# ------------------------------------------------------------------ session
class Session:
    def __init__(self, contracts=None):
        self.bounded = []
        self.contracts = contracts or REGISTRY
        self.proved = set()
        self.calls = {}
        self.fail_fast = False
        self.conf_points = 6 if TIER == "quick" else 40
        fns = {}
        for n, c in self.contracts.items():
            if not isinstance(c, Contract) or c.call is not None:
                continue
            try:
                fns[n] = c.func()
            except Exception:
                pass
        self.modular = ex.Modular(fns)
        self.cases = 0
        self.limit = 25 if TIER == "quick" else 120
        self.z3ms = 3000 if TIER == "quick" else 15000
        self._memo = {}

    def core_nds(self, c):
        return (0, 1, 2)

    def note_calls(self, name, ctx):
        s = self.calls.setdefault(name, set())
        for n, _, _ in ctx.calls:
            s.add(n)

    def prover(self, hyps, samples):
        return Prover(hyps, samples, z3ms=self.z3ms)

    def prove_pair(self, a, b, hyps, samples, label, limit=None):
        """first with the opaque contract symbols kept, then with their definitions unfolded"""
        limit = limit or self.limit
        if tm.has_opaque(a, b):
            try:
                with time_limit(limit):
                    return self._prove_pair(a, b, hyps, samples, label)
            except Unproved:
                pass
            a, b = tm.expand([a, b])
        with time_limit(limit):
            return self._prove_pair(a, b, hyps, samples, label)

    def _prove_pair(self, a, b, hyps, samples, label):
        p = self.prover(hyps, samples)
        try:
            if a.isb or b.isb:
                p.prove(tm.iff(a, b), label)
            else:
                p.prove_equal(a, b, label)
        finally:
            self.cases += p.leaves

    def prove_bool(self, g, hyps, samples, label, limit=None):
        p = self.prover(hyps, samples)
        try:
            with time_limit(limit or self.limit):
                p.prove(g, label)
        finally:
            self.cases += p.leaves

    def prove_defined(self, ts, hyps, samples, label):
        key = (tuple(sorted({t.id for t in ts})), tuple(sorted(h.id for h in hyps)))
        if key in self._memo:
            return self._memo[key]
        p = self.prover(hyps, samples)
        try:
            with time_limit(2 * self.limit):
                n = p.prove_defined(ts, label)
        finally:
            self.cases += p.leaves
        self._memo[key] = n
        return n
