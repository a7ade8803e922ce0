"""Cross-cutting (relational) obligations over every contracted function: batching, defaults, tracing/purity, precision.

batching    terms extracted for a batched call == terms of the scalar call, element by element (two runs of the same code)
defaults    terms extracted with an argument left out == terms with the documented default substituted
tracing     the function is stageable (jit, vmap, forward derivative) for abstract values, without effects, with the same
            staged program after other calls, and leaves its arguments and its mutable defaults as they were
precision   in the complete staged program (callees inlined) no floating value is narrower than float64
"""
from __future__ import annotations
import copy
import inspect
import re
import time
import numpy as np
import jax
import jax.numpy as jnp

from . import terms as tm, extract as ex
from .contract import Contract, Obl, REGISTRY, C, _o, TIER
from .loops import SolverContract
from .solve import Samples, Unproved


def _obl(c, sig, kind, label):
    return Obl(c.name, sig, kind, label)


def _fail(o, why, wit=None):
    o.status, o.why, o.witness = "failed", why, wit


def _resolve(c, kind):
    try:
        return c.func(), None
    except Exception as e:
        o = _obl(c, "-", kind, "resolve")
        _fail(o, repr(e), {"kind": "import", "error": repr(e)})
        return None, o


def _functional(names=None):
    out = [c for c in REGISTRY.values() if isinstance(c, Contract) and not isinstance(c, SolverContract)]
    return [c for c in out if names is None or c.name in names]


# ------------------------------------------------------------------------------------------------ batching
def batching(session, names=None):
    obls = []
    for c in _functional(names):
        f, bad = _resolve(c, "batching")
        if bad:
            obls.append(bad)
            continue
        sigs = [s for s in c.signatures() if not s[2]]
        base = {p.name: tuple(p.core) for p in c.params}
        todo = [s for s in sigs if s[1] != base]
        if not todo:
            continue
        todo = grow(c, todo)
        ctx = ex.Ctx(session.contracts)
        try:
            souts = c.trace_terms(session, f, base, set(), ctx)[0]
        except Exception as e:
            o = _obl(c, "scalar", "batching", "trace")
            _fail(o, f"{type(e).__name__}: {str(e)[:300]}")
            _witness_batch(c, f, base, base, o)
            obls.append(o)
            continue
        session.note_calls(c.name, ctx)
        for lab, shapes, _ in todo:
            obls += _batch_one(session, c, f, lab, shapes, base, souts)
            if obls and obls[-1].status == "failed" and obls[-1].witness:
                return obls
        obls += generic(session, c, f, sigs, base, souts)
        if obls and obls[-1].status == "failed" and obls[-1].witness:
            return obls
    return obls


REF = 11
GENERIC = (13, 17, 37, 64, 100, 128, 257, 1000) if TIER == "quick" else (7, 8, 13, 16, 17, 19, 23, 32, 37, 64, 100, 101, 128, 256, 257, 500, 512,
                                                                         1000, 1024, 2048, 4096, 4097, 10000, 10007, 65536)
_INT = re.compile(r"(?<![\w.])\d+(?![\w.])")


def sized_program(c, f, shapes, n):
    """staged program of the call with every dimension that is a multiple of n written as a multiple of N"""
    j = staged(c, f, shapes, set())

    def tok(m):
        v = int(m.group())
        return f"{v // n}N" if v and v % n == 0 else m.group()
    cs = []
    for x in constants(j):
        a = np.asarray(x)
        if any(d % n == 0 and d for d in a.shape):
            cs.append((tuple(_INT.sub(tok, str(d)) for d in a.shape), a.ravel()[:1].tolist() if np.all(a == a.ravel()[0]) else "varies"))
        else:
            cs.append((a.shape, a.tolist()))
    return _INT.sub(tok, _text(j.jaxpr)), repr(cs)


def generic(session, c, f, sigs, base, souts):
    """for each batching pattern: the staged program at size REF (verified element by element) is, up to the batch dimension, the
    program at every other listed size; where it is not, that size is verified element by element itself"""
    obls = []
    seen = set()
    for lab, shapes, om in sigs:
        bs = {p.name: shapes[p.name][:len(shapes[p.name]) - len(p.core)] for p in c.params}
        if any(len(b) > 1 for b in bs.values()) or not any(b and b[0] in (2, 3) for b in bs.values()):
            continue
        pat = tuple(sorted((n, bool(b) and b[0] != 1, b) if b and b[0] == 1 else (n, bool(b), ()) for n, b in bs.items()))
        if pat in seen:
            continue
        seen.add(pat)
        at = lambda k: {p.name: tuple(k if x in (2, 3) else x for x in bs[p.name]) + tuple(p.core) for p in c.params}
        name = lambda d: ",".join(f"{k}:{'x'.join(map(str, v)) or 's'}" for k, v in d.items())
        o = _obl(c, name(at(REF)).replace(str(REF), "N"), "batching", "the program does not depend on the batch size")
        t0 = time.time()
        try:
            ref = sized_program(c, f, at(REF), REF)
            obls += _batch_one(session, c, f, name(at(REF)), at(REF), base, souts)
        except Exception as e:
            _fail(o, f"{type(e).__name__}: {str(e)[:300]}")
            _witness_batch(c, f, at(REF), base, o)
            obls.append(o)
            return obls
        obls.append(o)
        o.status, o.backend, o.count = "proved", "identity of staged programs", 0
        for n in GENERIC:
            try:
                same = sized_program(c, f, at(n), n) == ref
            except Exception as e:
                _fail(o, f"batch of {n} rejected: {type(e).__name__}: {str(e)[:300]}")
                _witness_batch(c, f, at(n), base, o)
                return obls
            o.count += 1
            if same:
                continue
            if n <= 130:
                obls += _batch_one(session, c, f, name(at(n)), at(n), base, souts)
                if obls[-1].status == "failed":
                    return obls
            else:
                r = _obl(c, name(at(n)), "batching", "concrete batch equals its elements")
                obls.append(r)
                r.status, r.backend = "proved", "bounded: concrete calls"
                _concrete_batch(c, f, at(n), base, r)
                if r.status == "failed":
                    return obls
        o.time = time.time() - t0
    return obls


def _concrete_batch(c, f, shapes, base, o):
    rng = np.random.default_rng(11)
    pre = [h for h in c.pre(**c.symbols(base, set())) if h is not tm.TT]
    n = max((x for p in c.params for x in _bshape(p, shapes)), default=1)
    pool = c.pool(base, set(), pre, n=4 * n, rng=rng)
    m = len(next(iter(pool.values()))) if pool else 0
    if m < n:
        return
    vals = {}
    for p in c.params:
        sym = ex.symbolic(p.name, base[p.name])
        b = _bshape(p, shapes)
        k = b[0] if b else 1
        a = np.stack([pool[x][:k] for x in sym.ravel()], axis=-1).reshape((k,) + tuple(p.core))
        vals[p.name] = a if b else a[0]
    try:
        big = [np.asarray(x) for x in jax.tree_util.tree_leaves(c.invoke(f, {k: jnp.asarray(v) for k, v in vals.items()}))]
        for j in sorted({0, 1, n // 2, n - 1}):
            one = {p.name: (vals[p.name][j if vals[p.name].shape[0] > 1 else 0] if _bshape(p, shapes) else vals[p.name]) for p in c.params}
            sm = [np.asarray(x) for x in jax.tree_util.tree_leaves(c.invoke(f, {k: jnp.asarray(v) for k, v in one.items()}))]
            for a, b in zip(big, sm):
                if not np.allclose(a[j].ravel(), b.ravel(), rtol=1e-7, atol=1e-9, equal_nan=True):
                    _fail(o, "an element of the batch differs from the scalar call",
                          {"kind": "batch", "function": c.path, "size": n, "element": j, "inputs": {k: np.asarray(v).tolist() for k, v in one.items()},
                           "got": a[j].tolist(), "scalar": b.tolist()})
                    return
    except Exception as e:
        _fail(o, f"{type(e).__name__}: {str(e)[:300]}", {"kind": "exception", "function": c.path, "size": n, "error": str(e)[:300]})


SIZES = (3, 1, 6) if TIER == "quick" else (3, 1, 4, 5, 6, 7, 12, 40)


def grow(c, sigs):
    """the same batching patterns with other sizes (3 and 6 coincide with core dimensions) and a second batch axis"""
    out = list(sigs)
    seen = {tuple(sorted(s[1].items())) for s in sigs}
    for lab, shapes, om in sigs:
        bs = {p.name: shapes[p.name][:len(shapes[p.name]) - len(p.core)] for p in c.params}
        if any(len(b) > 1 for b in bs.values()) or not any(b in ((2,), (3,)) for b in bs.values()):
            continue
        alts = [{n: tuple(k if x in (2, 3) else x for x in b) for n, b in bs.items()} for k in SIZES]
        if all(b in ((2,), ()) for b in bs.values()) and c.name not in NO_GRID:
            alts += [{n: (2, 2) if b else () for n, b in bs.items()}, {n: (3, 2) if b else () for n, b in bs.items()}]
        for a in alts:
            d = {p.name: a[p.name] + tuple(p.core) for p in c.params}
            key = tuple(sorted(d.items()))
            if key not in seen:
                seen.add(key)
                out.append((",".join(f"{k}:{'x'.join(map(str, v)) or 's'}" for k, v in d.items()), d, om))
    return out


NO_GRID = {"kepler"}


def _batch_one(session, c, f, lab, shapes, base, souts):
    o = _obl(c, lab, "batching", "shape")
    obls = [o]
    bshape = np.broadcast_shapes(*[_bshape(p, shapes) for p in c.params])
    want = [c_.shape for c_ in _specs(c, shapes)]
    try:
        ctx = ex.Ctx(session.contracts)
        outs = c.trace_terms(session, f, shapes, set(), ctx)[0]
    except Exception as e:
        _fail(o, f"batched call rejected: {type(e).__name__}: {str(e)[:300]}")
        _witness_batch(c, f, shapes, base, o)
        return obls
    got = [x.shape for x in outs]
    if got != want:
        _fail(o, f"result shapes {got}, expected {want}")
        _witness_batch(c, f, shapes, base, o, want)
        return obls
    o.status, o.backend = "proved", "jaxpr"
    pre = [h for h in c.pre(**c.symbols(base, set())) if h is not tm.TT]
    smp = None
    o = _obl(c, lab, "batching", "element-wise")
    obls.append(o)
    t0 = time.time()
    for k, co in enumerate(outs):
        sc = souts[k]
        for i in np.ndindex(*co.shape):
            hit = False
            for cnd in sorted({sc.ndim, 0, 1, 2}, key=lambda z: (z != sc.ndim, z)):
                if cnd > len(i):
                    continue
                mp = c.rename_map(shapes, set(), i, cnd)
                if mp is None:
                    continue
                j = i[len(i) - sc.ndim:] if sc.ndim else ()
                j = tuple(0 if n == 1 else x for x, n in zip(j, sc.shape))
                try:
                    s_t = sc[j]
                except IndexError:
                    continue
                b_t = tm.subst(co[i], mp)
                if b_t is s_t:
                    hit = True
                    break
                if not set(tm.free_vars(co[i])) <= set(mp):
                    continue
                if smp is None:
                    smp = Samples(c.pool(base, set(), pre))
                try:
                    session.prove_pair(b_t, s_t, pre, smp, "batching")
                    hit = True
                    break
                except Unproved:
                    pass
            if not hit:
                _fail(o, f"element {list(i)} of result {k} is not the scalar result of that element")
                _witness_batch(c, f, shapes, base, o)
                o.time = time.time() - t0
                return obls
    o.status, o.backend, o.time = "proved", "term identity / ring+z3", time.time() - t0
    return obls


def _bshape(p, shapes):
    sh = shapes[p.name]
    return sh[:len(sh) - len(p.core)]


def _specs(c, shapes):
    s = c.spec(**c.symbols(shapes, set()))
    return [_o(x) for x in (s if isinstance(s, tuple) else (s,))]


def _witness_batch(c, f, shapes, base, o, want=None):
    """run the real code batched and element by element"""
    pre = [h for h in c.pre(**c.symbols(shapes, set())) if h is not tm.TT]
    pool = c.pool(shapes, set(), pre, n=600)
    m = len(next(iter(pool.values()))) if pool else 0
    want = want or [x.shape for x in _specs(c, shapes)]
    for j in range(min(12, m)):
        env = c.point(pool, j)
        vals = {str(k.val): v for k, v in env.items()}
        try:
            outs, ins = c.real(f, env, shapes, set())
        except Exception as e:
            o.witness = {"kind": "exception", "inputs": vals, "error": f"{type(e).__name__}: {str(e)[:300]}"}
            return
        if [x.shape for x in outs] != [tuple(w) for w in want]:
            o.witness = {"kind": "shape", "inputs": ins, "got": str([x.shape for x in outs]), "expected": str(want)}
            return
        ok, det = c.compare(f, env, shapes, set(), _specs(c, shapes))
        if not ok and not (det["kind"] == "value" and c.illconditioned(env, _specs(c, shapes), det)):
            o.witness = det
            return


# ------------------------------------------------------------------------------------------------ defaults
def defaults(session, names=None):
    obls = []
    for c in [x for x in REGISTRY.values() if isinstance(x, Contract) and (names is None or x.name in names)]:
        oms = [s for s in c.signatures() if s[2]]
        if not oms:
            continue
        f, bad = _resolve(c, "defaults")
        if bad:
            obls.append(bad)
            continue
        base = {p.name: tuple(p.core) for p in c.params}
        try:
            full = _trace(session, c, f, base, set())
        except Exception as e:
            o = _obl(c, "all arguments", "defaults", "trace")
            _fail(o, f"{type(e).__name__}: {str(e)[:300]}")
            _witness_default(session, c, f, base, set(), o)
            obls.append(o)
            continue
        for lab, shapes, om in oms:
            o = _obl(c, lab, "defaults", "same as the documented default")
            obls.append(o)
            t0 = time.time()
            try:
                part = _trace(session, c, f, shapes, om)
            except Exception as e:
                _fail(o, f"call without {sorted(om)} rejected: {type(e).__name__}: {str(e)[:300]}")
                _witness_default(session, c, f, shapes, om, o)
                continue
            dft = {p.name: p.default for p in c.params}
            mp = {tm.var(n): tm.lift(dft[n]) for n in om}
            ok = len(full) == len(part)
            why = "different structure"
            if ok:
                pre = [h for h in c.pre(**c.symbols(shapes, om)) if h is not tm.TT]
                smp = None
                for a, b in zip(full, part):
                    a = tm.subst(a, mp)
                    if a is b:
                        continue
                    if smp is None:
                        smp = Samples(c.pool(shapes, om, pre))
                    try:
                        session.prove_pair(a, b, pre, smp, "defaults")
                    except Unproved as u:
                        ok, why = False, str(u.why)[:400]
                        break
            if not ok:
                # literally the statement: the call with the documented defaults passed explicitly
                try:
                    expl = _trace(session, c, _explicit(f, {n: _concrete(dft[n]) for n in om}), shapes, om)
                    ok = len(expl) == len(part) and all(x is y for x, y in zip(expl, part))
                except Exception as e:
                    why += f"; explicit call: {type(e).__name__}: {str(e)[:200]}"
            o.time = time.time() - t0
            if ok:
                o.status, o.backend = "proved", "term identity / ring+z3"
            else:
                _fail(o, f"leaving out {sorted(om)} is not the documented default: {why}")
                _witness_default(session, c, f, shapes, om, o)
                if o.witness:
                    return obls
    return obls


def _concrete(v):
    x = float(tm.evaluate_np([tm.lift(v)], {})[0])
    return int(x) if x == int(x) and abs(x) < 2 ** 53 else x


def _explicit(f, kw):
    def g(*a, **k):
        return f(*a, **k, **kw)
    g.__signature__ = inspect.signature(f)
    return g


def _trace(session, c, f, shapes, om):
    """flat list of terms describing the call (results, then every loop's init, guard and step)"""
    ctx = ex.Ctx(session.contracts)
    outs = c.trace_terms(session, f, shapes, om, ctx)[0]
    session.note_calls(c.name, ctx)
    r = [x for a in outs for x in a.ravel()]
    for L in ctx.loops:
        r += list(L.init) + list(L.next) + [L.cond]
    return r


def _witness_default(session, c, f, shapes, om, o):
    if isinstance(c, SolverContract):
        args = {k: v[()] for k, v in c.symbols({p.name: () for p in c.params}, om).items()}
        c.refute_solver(session, f, args, om, o)
        return
    specs = c.spec(**c.symbols(shapes, om))
    specs = [_o(x) for x in (specs if isinstance(specs, tuple) else (specs,))]
    pre = [h for h in c.pre(**c.symbols(shapes, om)) if h is not tm.TT]
    c.refute_real(session, f, shapes, om, specs, pre, o, n=30)


# ------------------------------------------------------------------------------------------------ tracing and purity
def _eqns(jaxpr):
    for e in jaxpr.eqns:
        yield e
        for v in e.params.values():
            for s in (v if isinstance(v, (tuple, list)) else (v,)):
                j = getattr(s, "jaxpr", s)
                if hasattr(j, "eqns"):
                    yield from _eqns(j)


def _text(j):
    return re.sub(r"0x[0-9a-fA-F]+", "0x", str(j))


def staged(c, f, shapes, om, transform=None):
    ab = c.abstract(shapes, om)
    names = list(ab)

    def g(*vals):
        return c.invoke(f, dict(zip(names, vals)))
    if transform:
        g = transform(g)
    return jax.make_jaxpr(g)(*[ab[n] for n in names])


def _sample_vals(c, shapes, om, rng):
    pre = []
    try:
        pre = [h for h in c.pre(**c.symbols(shapes, om)) if h is not tm.TT]
    except Exception:
        pass
    pool = c.pool(shapes, om, pre, n=200, rng=rng)
    vals = {}
    m = len(next(iter(pool.values()))) if pool else 0
    j = int(rng.integers(max(m, 1)))
    for p in c.params:
        if p.name in om:
            continue
        if p.name == "max_iter":
            vals[p.name] = 25
            continue
        s = ex.symbolic(p.name, shapes[p.name])
        a = np.empty(s.shape)
        for i in np.ndindex(*s.shape):
            a[i] = pool[s[i]][j] if m else 1.0
        vals[p.name] = a
    return vals


def tracing(session, names=None):
    obls = []
    rng = np.random.default_rng(3)
    for c in [x for x in REGISTRY.values() if isinstance(x, Contract) and (names is None or x.name in names)]:
        f, bad = _resolve(c, "tracing")
        if bad:
            obls.append(bad)
            continue
        base = {p.name: tuple(p.core) for p in c.params}
        sigs = [s for s in c.signatures()]
        first = {}
        for lab, shapes, om in sigs:
            if isinstance(c, SolverContract):
                shapes = {p.name: () for p in c.params}
            o = _obl(c, lab, "traceable", "jit")
            obls.append(o)
            try:
                j = staged(c, spy(f), shapes, om)
                o.status, o.backend = "proved", "jaxpr"
                if j.effects:
                    _fail(o, f"side effects {j.effects}", {"kind": "effects", "effects": str(j.effects)})
                first[lab] = _text(j)
            except Exception as e:
                _fail(o, f"not stageable: {type(e).__name__}: {str(e)[:300]}")
                vals = _sample_vals(c, shapes, om, rng)
                try:
                    jax.jit(lambda **k: c.invoke(spy(f), k))(**vals)
                except Exception as e2:
                    o.witness = {"kind": "jit", "inputs": {k: np.asarray(v).tolist() for k, v in vals.items()},
                                 "error": f"{type(e2).__name__}: {str(e2)[:300]}"}
                return obls
        lab, shapes, om = sigs[0]
        if isinstance(c, SolverContract):
            shapes = {p.name: () for p in c.params}
        ab = c.abstract(shapes, om)
        fl = [n for n in ab if n != "max_iter"]
        for kind in ("vmap", "derivative"):
            o = _obl(c, lab, "traceable", kind)
            obls.append(o)

            def g(*vals):
                return c.invoke(f, dict(zip(fl, vals)))
            try:
                if kind == "vmap":
                    args = [jax.ShapeDtypeStruct((5,) + tuple(ab[n].shape), np.float64) for n in fl]
                    jax.make_jaxpr(jax.vmap(g))(*args)
                else:
                    args = [ab[n] for n in fl]
                    jax.make_jaxpr(lambda *a: jax.jvp(g, a, a))(*args)
                o.status, o.backend = "proved", "jaxpr"
            except Exception as e:
                _fail(o, f"{kind} rejected: {type(e).__name__}: {str(e)[:300]}",
                      {"kind": kind, "function": c.path, "shapes": {n: list(s.shape) for n, s in zip(fl, args)},
                       "error": f"{type(e).__name__}: {str(e)[:300]}"})
                return obls
        # frame: arguments and module-level defaults unchanged, same program after use
        obls += frame(session, c, f, sigs, first, rng)
        if obls[-1].status == "failed":
            return obls
    return obls


VALUES = (1, 1.0, 2, 2.0, 2.5, 0, 0.0, -1, -0.75, 0.5, 1.5)


def statics(session, names=None):
    """an argument given as a concrete Python or numpy number means the same as an abstract argument of that value"""
    obls = []
    for c in [x for x in REGISTRY.values() if isinstance(x, Contract) and (names is None or x.name in names)]:
        f, bad = _resolve(c, "static")
        if bad:
            obls.append(bad)
            continue
        base = {p.name: tuple(p.core) for p in c.params}
        try:
            full = _trace(session, c, f, base, set())
        except Exception as e:
            continue            # reported by the staging obligations
        pre0 = [h for h in c.pre(**c.symbols(base, set())) if h is not tm.TT]
        pool = c.pool(base, set(), pre0)
        for p in c.params:
            if p.core or p.name == "max_iter":
                continue
            o = _obl(c, p.name, "static", "a concrete number means the same as an abstract one")
            vals = []
            cand = list(VALUES) + ([1e-6, 1e-9, 1e-12] if p.name == "tol" else []) + [p.default] * (isinstance(p.default, (int, float)))
            for v in cand:
                mp = {tm.var(p.name): tm.lift(v)}
                try:
                    h = [tm.subst(x, mp) for x in pre0]
                except ZeroDivisionError:
                    continue
                if tm.FF in h:
                    continue
                vals.append((v, mp, [x for x in h if x is not tm.TT]))
            if TIER == "quick":
                vals = vals[:1] + [x for x in vals[1:] if isinstance(x[0], float) and x[0] == 2.0 or x[0] == p.default][:2]
            forms = [(v, mp, h) for v, mp, h in vals] + ([(np.float64(v), mp, h) for v, mp, h in vals[-1:]] if TIER != "quick" else [])
            if not forms:
                continue
            obls.append(o)
            o.status, o.backend, o.count = "proved", "term identity / ring+z3", len(forms)
            t0 = time.time()
            for v, mp, h in forms:
                why = None
                try:
                    part = _trace_static(session, c, f, base, {p.name: v})
                    if len(part) != len(full):
                        why = "different structure"
                    else:
                        smp = None
                        for a, b in zip(full, part):
                            try:
                                a = tm.subst(a, mp)
                            except ZeroDivisionError:
                                continue
                            if a is b:
                                continue
                            smp = smp or Samples({})
                            session.prove_pair(a, b, h, smp, "static")
                except Unproved as u:
                    why = str(u.why)[:400]
                except Exception as e:
                    why = f"{type(e).__name__}: {str(e)[:300]}"
                if why:
                    wit = _witness_static(c, f, base, p.name, v)
                    if wit or "Error" in why:
                        _fail(o, f"{p.name} = {v!r}: {why}", wit)
                        if wit:
                            return obls
                        break
                    o.backend = "bounded: concrete calls"       # constants folded in floating point, or a loop of another form
            o.time = time.time() - t0
    return obls


def _trace_static(session, c, f, base, kw):
    old, inv, syms = c.abstract, c.invoke, c.symbols
    try:
        c.abstract = lambda sh, om: old(sh, om | set(kw))
        c.symbols = lambda sh, om: syms(sh, om - set(kw))
        c.invoke = lambda g, vals: inv(g, {**vals, **kw})
        return _trace(session, c, f, base, set(kw))
    finally:
        del c.abstract, c.invoke, c.symbols


def _witness_static(c, f, base, name, v):
    rng = np.random.default_rng(5)
    call = lambda d: [np.asarray(x) for x in jax.tree_util.tree_leaves(c.invoke(f, d))]
    for _ in range(30):
        vals = {k: (x if k == "max_iter" else jnp.asarray(x)) for k, x in _sample_vals(c, base, set(), rng).items()}
        b = {**vals, name: jnp.asarray(float(v))}
        rep = {k: np.asarray(x).tolist() for k, x in b.items()}
        try:
            want = call(b)
        except Exception:
            continue
        try:
            got = call({**vals, name: v})
        except Exception as e:
            return {"kind": "exception", "function": c.path, "inputs": rep, "argument": f"{name} = {v!r}", "error": f"{type(e).__name__}: {str(e)[:300]}"}
        tol = 1e-4 if isinstance(c, SolverContract) else 1e-9
        if any(x.shape != y.shape or not np.allclose(x, y, rtol=tol, atol=tol * 1e-3, equal_nan=True) for x, y in zip(got, want)):
            return {"kind": "value", "function": c.path, "inputs": rep, "argument": f"{name} = {v!r}", "got": [x.tolist() for x in got],
                    "for_an_array_of_that_value": [x.tolist() for x in want]}
    return None


from .purity import modifies_nothing      # noqa: E402


class Modified(Exception):
    pass


def _snap(x):
    """containers by structure, leaves by identity, numpy arrays also by value"""
    if isinstance(x, dict):
        return ("d", [(k, _snap(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return ("l", [_snap(v) for v in x])
    return ("a", x, x.copy()) if isinstance(x, np.ndarray) else ("o", x)


def _unchanged(s, x):
    if s[0] == "d":
        return isinstance(x, dict) and list(x) == [k for k, _ in s[1]] and all(_unchanged(t, x[k]) for k, t in s[1])
    if s[0] == "l":
        return isinstance(x, (list, tuple)) and len(x) == len(s[1]) and all(_unchanged(t, v) for t, v in zip(s[1], x))
    return x is s[1] and (s[0] != "a" or np.array_equal(x, s[2], equal_nan=True))


def spy(f, probe=False):
    """f with the frame condition: no argument (container entries included) is changed"""
    def g(*a, **k):
        s = _snap((a, k))
        r = f(*a, **k)
        if not _unchanged(s, (a, k)):
            raise Modified("an argument was modified: " + repr(k or a)[:300])
        if probe:
            incomplete(f, a, k)
        return r
    g.__wrapped__ = f
    return g


def incomplete(f, a, k):
    """the frame condition on parameter sets that lack an entry, hold only one, or hold an unknown one: whatever the call does
    (return or raise), the set given is left as it was"""
    for i, d in [(i, x) for i, x in enumerate(a)] + list(k.items()):
        if not isinstance(d, dict):
            continue
        sets = [{m: v for m, v in d.items() if m != q} for q in d] + [{m: v} for m, v in d.items()] + [{}, {**d, "unused": 1.0}]
        for e in sets:
            b, l = list(a), dict(k)
            (b if isinstance(i, int) else l)[i] = e
            s, given = _snap((b, l)), list(e)
            try:
                f(*b, **l)
            except Exception:
                pass
            if not _unchanged(s, (b, l)):
                raise Modified(f"the parameter set was modified: {given} were given, now {list(e)}")


def frame(session, c, f, sigs, first, rng):
    obls = []
    fn = getattr(f, "__wrapped__", f)
    dfl = copy.deepcopy(getattr(fn, "__defaults__", None))
    o = _obl(c, "frame", "frame", "arguments and defaults unchanged, result independent of earlier calls")
    obls.append(o)
    why = modifies_nothing(fn)
    o.status, o.backend = "proved", "bounded: concrete calls" if why else "frame analysis"
    if why:
        session.bounded.append(f"{c.name}: frame condition on concrete calls only ({why})")
    for lab, shapes, om in (sigs[:1] + sigs[-1:]):
        if isinstance(c, SolverContract):
            shapes = {p.name: () for p in c.params}
        vals = _sample_vals(c, shapes, om, rng)
        keep = {k: np.array(v, copy=True) for k, v in vals.items()}
        f0, f = f, spy(f, True)
        try:
            a = [np.asarray(x) for x in jax.tree_util.tree_leaves(c.invoke(f, dict(vals)))]
            other = _sample_vals(c, shapes, om, rng)
            c.invoke(f, dict(other))
            b = [np.asarray(x) for x in jax.tree_util.tree_leaves(c.invoke(f, dict(vals)))]
        except Exception as e:
            _fail(o, f"{type(e).__name__}: {str(e)[:300]}", {"kind": "frame" if isinstance(e, Modified) else "exception",
                                                             "inputs": {k: v.tolist() for k, v in keep.items()},
                                                             "error": f"{type(e).__name__}: {str(e)[:300]}"})
            return obls
        f = f0
        if any(not np.array_equal(np.asarray(vals[k]), keep[k]) for k in keep):
            _fail(o, "an argument was modified", {"kind": "frame", "inputs": {k: v.tolist() for k, v in keep.items()}})
            return obls
        if any(not np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b)):
            _fail(o, "the same call gave another result after an intermediate call",
                  {"kind": "history", "inputs": {k: v.tolist() for k, v in keep.items()},
                   "between": {k: np.asarray(v).tolist() for k, v in other.items()}, "first": [x.tolist() for x in a],
                   "second": [x.tolist() for x in b]})
            return obls
        if not _same(dfl, getattr(fn, "__defaults__", None)):
            _fail(o, f"the default arguments were modified: {fn.__defaults__}", {"kind": "defaults", "now": repr(fn.__defaults__)})
            return obls
        try:
            if lab in first and _text(staged(c, f, shapes, om)) != first[lab]:
                _fail(o, "the staged program depends on earlier calls",
                      {"kind": "history", "inputs": {k: v.tolist() for k, v in keep.items()}})
                return obls
        except Exception as e:
            _fail(o, repr(e)[:300])
    return obls


def _same(a, b):
    try:
        return bool(a == b)
    except Exception:
        return repr(a) == repr(b)


# ------------------------------------------------------------------------------------------------ precision
def precision(session, names=None):
    obls = []
    for c in [x for x in REGISTRY.values() if isinstance(x, Contract) and (names is None or x.name in names)]:
        f, bad = _resolve(c, "precision")
        if bad:
            obls.append(bad)
            continue
        for lab, shapes, om in c.signatures():
            if isinstance(c, SolverContract):
                shapes = {p.name: () for p in c.params}
            o = _obl(c, lab, "precision", "no floating value narrower than float64")
            obls.append(o)
            t0 = time.time()
            try:
                j = staged(c, f, shapes, om)
            except Exception as e:
                _fail(o, f"{type(e).__name__}: {str(e)[:300]}")
                continue
            bad = narrow(j)
            res = [str(v.aval.dtype) for v in j.jaxpr.outvars
                   if not (v.aval.dtype == np.float64 or v.aval.dtype == np.bool_)]
            o.time = time.time() - t0
            if bad or res:
                _fail(o, f"narrow values: {bad[:4]} results: {res}")
                rng = np.random.default_rng(1)
                vals = _sample_vals(c, shapes, om, rng)
                o.witness = {"kind": "precision", "function": c.path, "inputs": {k: np.asarray(v).tolist() for k, v in vals.items()},
                             "operations": bad[:6], "result_types": res}
                try:
                    o.witness["got"] = [np.asarray(x).tolist() for x in jax.tree_util.tree_leaves(c.invoke(f, vals))]
                except Exception:
                    pass
                return obls
            o.status, o.backend = "proved", "type analysis of the staged program"
    return obls


def rounded_single(x):
    """a double that carries a single-precision value: exact in float32, yet neither a short binary nor a short decimal"""
    if not np.isfinite(x) or x == 0 or float(np.float32(x)) != x:
        return False
    m = int(abs(np.frexp(x)[0]) * 2 ** 53)
    bits = 53 - ((m & -m).bit_length() - 1)
    return bits > 18 and len(repr(abs(x)).split("e")[0].replace(".", "").strip("0")) > 9


def constants(closed):
    from jax.extend import core as jc
    todo = [closed]
    while todo:
        c = todo.pop()
        for x in getattr(c, "consts", ()):
            yield x
        for e in (c.jaxpr if hasattr(c, "jaxpr") else c).eqns:
            for v in e.invars:
                if isinstance(v, jc.Literal):
                    yield v.val
            for p in e.params.values():
                for q in (p if isinstance(p, (list, tuple)) else [p]):
                    if hasattr(q, "eqns") or hasattr(getattr(q, "jaxpr", None), "eqns"):
                        todo.append(q)


def narrow(closed):
    bad = []
    for x in constants(closed):
        try:
            a = np.asarray(x)
        except Exception:
            continue
        if a.dtype == np.float64 and a.size <= 4096:
            bad += [f"constant {v!r} has only single precision" for v in a.ravel().tolist() if rounded_single(v)]
    for e in _eqns(closed.jaxpr):
        for v in list(e.outvars) + list(e.invars):
            dt = getattr(getattr(v, "aval", None), "dtype", None)
            if dt is None:
                continue
            if jnp.issubdtype(dt, jnp.floating) and np.dtype(dt).itemsize < 8:
                bad.append(f"{e.primitive.name}: {dt}")
        if e.primitive.name == "reduce_precision":
            bad.append(f"reduce_precision {e.params}")
        if e.primitive.name == "convert_element_type":
            s, d = e.invars[0].aval.dtype, e.params["new_dtype"]
            if jnp.issubdtype(s, jnp.floating) and jnp.issubdtype(d, jnp.integer):
                pass        # rounding to integers is part of the value and covered by the functional contracts
    return bad


# ------------------------------------------------------------------------------------------------ whole-number inputs
def whole_numbers(session, names=None):
    """terms extracted for integer-typed arguments == terms extracted for float64 arguments"""
    obls = []
    for c in [x for x in REGISTRY.values() if isinstance(x, Contract) and (names is None or x.name in names)]:
        f, bad = _resolve(c, "kinds")
        if bad:
            obls.append(bad)
            continue
        base = {p.name: tuple(p.core) for p in c.params}
        try:
            full = _trace(session, c, f, base, set())
        except Exception as e:
            o = _obl(c, "float64", "kinds", "trace")
            _fail(o, f"{type(e).__name__}: {str(e)[:300]}")
            obls.append(o)
            continue
        cand = [p.name for p in c.params if p.name not in ("tol", "max_iter")]
        groups = [set(cand)] + ([{n} for n in cand] if len(cand) > 1 else [])
        for g in groups:
            o = _obl(c, "integer " + ("arguments" if g == set(cand) else sorted(g)[0]), "kinds", "same as equal real numbers")
            obls.append(o)
            why = None
            try:
                part = _trace_int(session, c, f, base, g)
                if len(part) != len(full):
                    why = "different structure"
                else:
                    smp = None
                    pre = [h for h in c.pre(**c.symbols(base, set())) if h is not tm.TT]
                    for a, b in zip(part, full):
                        if a is not b:
                            smp = smp or Samples(c.pool(base, set(), pre))
                            session.prove_pair(a, b, pre, smp, "kinds")
            except Unproved as u:
                why = str(u.why)[:400]
            except Exception as e:
                why = f"{type(e).__name__}: {str(e)[:300]}"
            if why is None:
                o.status, o.backend = "proved", "term identity / ring+z3"
            else:
                _fail(o, why)
                _witness_int(c, f, base, g, o)
                if o.witness:
                    return obls
    return obls


def _trace_int(session, c, f, base, g):
    old = c.abstract
    try:
        c.abstract = lambda sh, om: {k: jax.ShapeDtypeStruct(v.shape, np.int64 if k in g else v.dtype)
                                     for k, v in old(sh, om).items()}
        return _trace(session, c, f, base, set())
    finally:
        del c.abstract


def _witness_int(c, f, base, g, o):
    rng = np.random.default_rng(17)
    for _ in range(40):
        vals = _sample_vals(c, base, set(), rng)
        iv = {k: (np.asarray(np.rint(v * 3) + (np.rint(v * 3) == 0), dtype=np.int64) if k in g else v) for k, v in vals.items()}
        rv = {k: (np.asarray(v, dtype=np.float64) if k in g else v) for k, v in iv.items()}
        call = lambda d: [np.asarray(x) for x in jax.tree_util.tree_leaves(c.invoke(f, {k: (v if k == "max_iter" else jnp.asarray(v))
                                                                                        for k, v in d.items()}))]
        try:
            r = call(rv)
        except Exception:
            continue
        rep = {k: np.asarray(v).tolist() for k, v in iv.items()}
        try:
            i = call(iv)
        except Exception as e:
            o.witness = {"kind": "exception", "function": c.path, "inputs": rep, "error": f"{type(e).__name__}: {str(e)[:300]}"}
            return
        if any(a.shape != b.shape or not np.allclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True) for a, b in zip(i, r)):
            o.witness = {"kind": "value", "function": c.path, "inputs": rep, "got": [a.tolist() for a in i],
                         "for_equal_reals": [b.tolist() for b in r]}
            return
