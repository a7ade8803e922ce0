"""Contracts of the numerical propagators: exactly one integrator call, every argument specified, result returned as is.

The wrapper runs on symbolic (traced) x0, t1, dt, ts, args with the external integrator replaced by its assumed contract
(a recorder); each recorded array argument becomes a term that must equal the specified one for all values, the
configuration objects are compared field by field.
"""
from __future__ import annotations
import importlib
import inspect
import sys
import time
import types
import numpy as np
import jax
import jax.numpy as jnp

from . import terms as tm, extract as ex
from .contract import Obl, REGISTRY, _o, TIER
from .solve import Samples, Unproved


class Recorder:
    def __init__(self):
        self.calls = []
        self.token = object()

    def __call__(self, *a, **k):
        self.calls.append(solver_signature().bind(*a, **k))
        self.calls[-1].apply_defaults()
        return self.token


_SIG = []


def solver_signature():
    """signature of the real integrator (taken before it is replaced)"""
    if not _SIG:
        import diffrax
        from diffrax._integrate import diffeqsolve as real
        assert not isinstance(real, Recorder)
        _SIG.append(inspect.signature(real))
    return _SIG[0]


class stubbed:
    """replace diffrax.diffeqsolve in every astrodynx namespace"""

    def __init__(self, rec):
        self.rec, self.saved = rec, []

    def __enter__(self):
        import diffrax
        real = diffrax.diffeqsolve
        solver_signature()
        mods = [m for n, m in list(sys.modules.items())
                if (n == "astrodynx" or n.startswith("astrodynx.") or n == "diffrax") and isinstance(m, types.ModuleType)]
        for m in mods:
            for k, v in list(vars(m).items()):
                if v is real:
                    self.saved.append((m, k, v))
                    setattr(m, k, self.rec)
        return self

    def __exit__(self, *a):
        for m, k, v in self.saved:
            setattr(m, k, v)


def vf(t, x, args):
    return jnp.concatenate([x[3:], -args["mu"] * x[:3] / jnp.linalg.norm(x[:3]) ** 3])


class CowellContract:
    """expected(given): dict of the integrator's arguments for the wrapper's arguments"""
    functional = False
    call = True

    def __init__(self, name, path, extras, expected):
        self.name, self.path, self.extras, self.expected = name, path, extras, expected
        REGISTRY[name] = self

    def func(self):
        m, f = self.path.split(":")
        return getattr(importlib.import_module(m), f)

    def verify(self, session, callee=False):
        obls = []
        f = None
        try:
            f = self.func()
            from astrodynx import prop
        except Exception as e:
            o = Obl(self.name, "-", "resolve", "function")
            o.status, o.why, o.witness = "failed", repr(e), {"kind": "import", "error": repr(e)}
            return [o]
        for sig, given in self.signatures():
            obls += self.verify_one(session, f, prop, sig, given)
            if session.fail_fast and any(o.status == "failed" for o in obls):
                return obls
        obls.append(self.concrete_calls(f, prop))
        return obls

    def concrete_calls(self, f, prop):
        """bounded: the same contract on concrete arguments of every documented kind (Python and array scalars, other
        solvers, controllers, save schedules, step budgets, directions), the integrator still replaced by its contract"""
        import diffrax as dx
        rng = np.random.default_rng(int(__import__("os").environ.get("VERIF_SEED", "1")))
        o = Obl(self.name, "concrete", "conformance", "same arguments on sampled concrete calls")
        conv = [float, lambda x: np.float64(x), lambda x: jnp.asarray(x)]
        pick = lambda xs: xs[int(rng.integers(len(xs)))]
        n = 300 if TIER == "thorough" else 90
        for k in range(n):
            c = pick(conv)
            T = pick([1, -1]) * 10.0 ** rng.uniform(-3, 4)
            vals = {"x0": jnp.asarray(rng.normal(size=6)), "t1": c(T), "dt": c(np.sign(T) * 10.0 ** rng.uniform(-4, 2)),
                    "dt0": pick([None, c(0.01 * T)]), "ts": jnp.sort(jnp.asarray(rng.uniform(0, 1, int(rng.integers(1, 9))))) * T,
                    "max_steps": pick([1, 16, 100, 777, 4096, 4097, 5000, 20000, 10**6]),
                    "saveat": pick([dx.SaveAt(t1=True), dx.SaveAt(t0=True, t1=True), dx.SaveAt(dense=True), dx.SaveAt(steps=True),
                                    dx.SaveAt(ts=jnp.linspace(0.0, T, 4))]),
                    "solver": pick([dx.Tsit5(), dx.Dopri5(), dx.Dopri8(), dx.Heun(), dx.Euler()]),
                    "stepsize_controller": pick([dx.PIDController(rtol=1e-3, atol=1e-3), dx.PIDController(rtol=1e-12, atol=1e-13),
                                                 dx.PIDController(rtol=1e-6, atol=1e-9, dtmax=0.5), dx.ConstantStepSize()])}
            args = pick([{"mu": 1.0}, {"mu": 398600.4418, "rmin": 6378.0}, {"mu": 1.0, "J2": 1e-3, "R_eq": 1.0}, {}])
            event = pick([None, dx.Event(lambda t, y, args, **kw: y[0]), dx.Event([lambda t, y, args, **kw: y[0] < 0])])
            term = dx.ODETerm(vf)
            kw = {q: vals[q] for q in self.extras["required"]}
            kw.update({q: vals[q] for q in self.extras["optional"] if rng.random() < 0.5})
            rec = Recorder()
            bad = None
            try:
                with stubbed(rec):
                    out = f(prop.OrbDynx(term, args, event), vals["x0"], vals["t1"], **kw)
                    want = self.expected(dict({"x0": vals["x0"], "t1": vals["t1"]}, **kw), term, args, event)
                if len(rec.calls) != 1 or out is not rec.token:
                    bad = f"{len(rec.calls)} integrator calls, result {'unchanged' if out is rec.token else 'changed'}"
                else:
                    got, dyn, static = rec.calls[0].arguments, [], []
                    for q in solver_signature().parameters.values():
                        flatten_pair(q.name, got.get(q.name, q.default), want.get(q.name, q.default), dyn, static)
                    for label, v, w in dyn:
                        v, w = np.asarray(v), np.asarray(w)
                        if v.shape != w.shape or not np.allclose(v, w, rtol=1e-12, atol=0):
                            bad = f"argument {label} = {v!r}, contract {w!r}"
                    for label, ok, why in static:
                        if not ok:
                            bad = why
            except Exception as e:
                bad = f"{type(e).__name__}: {str(e)[:300]}"
            if bad:
                o.status, o.why = "failed", bad
                o.witness = {"kind": "call", "function": self.path, "x0": vals["x0"].tolist(), "t1": float(T), "args": repr(args),
                             "keywords": {q: repr(v) for q, v in kw.items()}, "event": repr(event), "violation": bad}
                return o
        o.status, o.backend = "proved", f"bounded: {n} concrete calls"
        return o

    def signatures(self):
        """(label, set of optional arguments given explicitly)"""
        opt = self.extras["optional"]
        out = [("defaults", ()), ("all arguments", tuple(opt)), ("event, no options", ("event",))]
        out += [(f"only {o}", (o,)) for o in opt]
        return out

    def verify_one(self, session, f, prop, sig, given):
        import diffrax
        obls = []
        mk = lambda kind, label: (obls.append(Obl(self.name, sig, kind, label)), obls[-1])[1]
        term = diffrax.ODETerm(vf)
        event = diffrax.Event(lambda t, y, args, **k: args["rmin"] - 1.0) if "event" in given or len(given) > 1 else None
        objs = {"solver": diffrax.Dopri8(), "stepsize_controller": diffrax.PIDController(rtol=1e-5, atol=1e-4),
                "max_steps": 777, "saveat": diffrax.SaveAt(t0=True, t1=True)}
        shapes = {"x0": (6,), "t1": (), "dt": (), "dt0": (), "ts": (3,), "mu": (), "rmin": ()}
        need = ["x0", "t1"] + [n for n in self.extras["required"] if n in shapes] + [n for n in given if n in shapes] + ["mu", "rmin"]
        need = list(dict.fromkeys(need))
        rec = Recorder()
        box = {}

        def g(*vals):
            rec.calls.clear()
            env = dict(zip(need, vals))
            args = {"mu": env["mu"], "rmin": env["rmin"]}
            kw = {}
            for n in self.extras["required"]:
                kw[n] = env[n] if n in env else objs[n]
            for n in given:
                if n != "event" and n in self.extras["optional"]:
                    kw[n] = env[n] if n in env else objs[n]
            od = prop.OrbDynx(term, args, event) if event is not None else prop.OrbDynx(term, args)
            out = f(od, env["x0"], env["t1"], **kw)
            box["out"] = out
            if len(rec.calls) != 1:
                return ()
            want = self.expected(dict(env, **kw), term, args, event)
            got = rec.calls[0].arguments
            box["want"], box["got"] = want, got
            dyn = []
            box["dyn"], box["static"] = dyn, []
            full = {p.name: p.default for p in solver_signature().parameters.values()}
            for k in full:
                w = want.get(k, full[k])
                v = got.get(k, full[k])
                flatten_pair(k, v, w, dyn, box["static"])
            res = []
            for label, v, w in dyn:
                res += [jnp.asarray(v), jnp.asarray(w)]
            return tuple(res)
        ctx = ex.Ctx(session.contracts)
        ab = [jax.ShapeDtypeStruct(shapes[n], np.float64) for n in need]
        sym = [ex.symbolic(n, shapes[n]) for n in need]
        try:
            with stubbed(rec):
                outs, tree, dts, closed = ex.extract(g, ab, sym, ctx)
        except Exception as e:
            o = mk("trace", "symbolic execution")
            o.status, o.why = "failed", f"{type(e).__name__}: {str(e)[:500]}"
            self.replay(o)
            return obls
        o = mk("ensures", "exactly one integration")
        if "got" not in box:
            o.status, o.why = "failed", f"{len(rec.calls)} calls of the integrator"
            o.witness = {"kind": "calls", "number": len(rec.calls), "signature": sig}
            return obls
        o.status, o.backend = "proved", "symbolic execution"
        o = mk("ensures", "the integrator's result is returned unchanged")
        if box["out"] is rec.token:
            o.status, o.backend = "proved", "symbolic execution"
        else:
            o.status, o.why = "failed", f"returns {type(box['out']).__name__}"
            self.replay(o)
        o = mk("precision", "float64")
        if ctx.narrowing:
            o.status, o.why = "failed", f"precision lost: {sorted(set(ctx.narrowing))}"
            o.witness = {"kind": "precision", "detail": sorted(set(ctx.narrowing)), "signature": sig}
        else:
            o.status, o.backend = "proved", "jaxpr"
        for label, ok, why in box["static"]:
            o = mk("ensures", f"argument {label}")
            o.status, o.backend = ("proved", "symbolic execution") if ok else ("failed", "")
            if not ok:
                o.why = why
                o.witness = {"kind": "configuration", "argument": label, "detail": why, "signature": sig,
                             "call": f"{self.path} with {list(given)}"}
        for j, (label, v, w) in enumerate(box["dyn"]):
            a, b = outs[2 * j], outs[2 * j + 1]
            o = mk("ensures", f"argument {label}")
            if a.shape != b.shape:
                o.status, o.why = "failed", f"shape {a.shape}, contract {b.shape}"
                o.witness = {"kind": "shape", "argument": label, "got": str(a.shape), "expected": str(b.shape)}
                continue
            try:
                smp = Samples({v_: np.linspace(0.5, 2.0, 7) for s in sym for v_ in s.ravel()})
                for i in np.ndindex(*a.shape):
                    session.prove_pair(a[i], b[i], [], smp, label)
                o.status, o.backend = "proved", "ring+z3"
            except Unproved as u:
                o.status, o.why = "failed", str(u.why)[:600]
                o.witness = self.value_witness(need, shapes, sym, a, b, label, sig)
        return obls

    def value_witness(self, need, shapes, sym, a, b, label, sig):
        rng = np.random.default_rng(5)
        for k in range(200):
            env = {v: float(x) for s in sym for v, x in zip(s.ravel(), rng.choice([-1, 1]) * rng.uniform(0.01, 30, s.size))}
            try:
                va, vb = tm.evaluate_mp(list(a.ravel()), env), tm.evaluate_mp(list(b.ravel()), env)
            except Exception:
                continue
            if any(abs(x - y) > 1e-12 * (1 + abs(y)) for x, y in zip(va, vb)):
                return {"kind": "argument", "argument": label, "inputs": {str(v.val): x for v, x in env.items()},
                        "passed_to_integrator": [float(x) for x in va], "expected": [float(x) for x in vb], "signature": sig}
        return None

    def replay(self, o):
        """concrete run of the real wrapper against a direct integrator call"""
        import diffrax
        from astrodynx import prop
        f = self.func()
        x0 = jnp.array([1.0, 0.1, 0.2, -0.1, 1.05, 0.3])
        args = {"mu": 1.1, "rmin": 0.2}
        term = diffrax.ODETerm(vf)
        vals = {"t1": 2.5, "dt": 0.05, "ts": jnp.array([0.0, 0.7, 2.5]), "saveat": diffrax.SaveAt(t0=True, t1=True)}
        kw = {n: vals[n] for n in self.extras["required"]}
        try:
            sol = f(prop.OrbDynx(term, args), x0, vals["t1"], **kw)
            want = self.expected(dict(vals, x0=x0, **kw), term, args, None)
            ref = diffrax.diffeqsolve(**concrete(want))
            if not (np.allclose(sol.ts, ref.ts, equal_nan=True) and np.allclose(sol.ys, ref.ys, rtol=1e-12, atol=1e-12, equal_nan=True)):
                o.witness = {"kind": "value", "inputs": {"x0": x0.tolist(), "t1": 2.5}, "got": np.asarray(sol.ys)[-1].tolist(),
                             "expected": np.asarray(ref.ys)[-1].tolist()}
        except Exception as e:
            o.witness = {"kind": "exception", "error": f"{type(e).__name__}: {str(e)[:300]}"}


def same_class(v, w):
    return type(v) is type(w)


def flatten_pair(label, v, w, dyn, static):
    """split into dynamic (array) pairs and static comparisons"""
    if w is inspect.Parameter.empty:
        return
    if callable(w) and getattr(w, "_predicate", False):
        ok, why = w(v)
        static.append((label, ok, why))
        return
    if is_num(v) and is_num(w):
        dyn.append((label, v, w))
        return
    if w is None or v is None or isinstance(w, (bool, str)) or isinstance(v, (bool, str)):
        static.append((label, v is w or v == w, f"{label} = {v!r}, contract {w!r}"))
        return
    if v is w:
        static.append((label, True, ""))
        return
    if isinstance(w, dict) and isinstance(v, dict):
        if set(v) != set(w):
            static.append((label, False, f"{label} has keys {sorted(v)}, contract {sorted(w)}"))
            return
        static.append((label, True, ""))
        for k in w:
            flatten_pair(f"{label}[{k!r}]", v[k], w[k], dyn, static)
        return
    if isinstance(w, (tuple, list)) and isinstance(v, (tuple, list)):
        if len(v) != len(w):
            static.append((label, False, f"{label}: {v!r}, contract {w!r}"))
            return
        for i, (a, b) in enumerate(zip(v, w)):
            flatten_pair(f"{label}[{i}]", a, b, dyn, static)
        return
    if type(v) is type(w) and hasattr(w, "__dataclass_fields__"):
        static.append((label, True, ""))
        for k in w.__dataclass_fields__:
            flatten_pair(f"{label}.{k}", getattr(v, k, None), getattr(w, k, None), dyn, static)
        return
    try:
        ok = bool(v == w)
    except Exception:
        ok = False
    static.append((label, ok, f"{label} = {v!r}, contract {w!r}"))


def is_num(x):
    return isinstance(x, (int, float, np.ndarray, np.generic, jax.Array, jax.core.Tracer)) and not isinstance(x, bool)


# ------------------------------------------------------------------ the specifications
def predicate(f):
    f._predicate = True
    return f


@predicate
def fifth_order(v):
    """the documented default integrator"""
    import diffrax
    return type(v) is diffrax.Tsit5, f"default solver {v!r}, documented Tsit5"


@predicate
def adaptive_1e8(v):
    import diffrax
    if not isinstance(v, diffrax.PIDController):
        return False, f"default step-size controller {type(v).__name__}"
    try:
        ok = float(v.rtol) <= 1e-8 and float(v.atol) <= 1e-8
    except Exception as e:
        return False, repr(e)
    return ok, f"default tolerances rtol={v.rtol} atol={v.atol}, documented 1e-8"


@predicate
def constant_step(v):
    import diffrax
    return type(v) is diffrax.ConstantStepSize, f"step-size controller {type(v).__name__}, documented constant"


def base(env, term, args, event):
    return {"terms": term, "t0": 0, "t1": env["t1"], "y0": env["x0"], "args": args, "event": event,
            "solver": env.get("solver", fifth_order), "stepsize_controller": env.get("stepsize_controller", adaptive_1e8),
            "dt0": None}


def concrete(d):
    """predicates replaced by the documented defaults (for replay)"""
    import diffrax
    r = dict(d)
    for k, v in d.items():
        if v is fifth_order:
            r[k] = diffrax.Tsit5()
        elif v is adaptive_1e8:
            r[k] = diffrax.PIDController(rtol=1e-8, atol=1e-8)
        elif v is constant_step:
            r[k] = diffrax.ConstantStepSize()
    return r


def define():
    import diffrax as dx

    def cm(env, term, args, event):
        return dict(base(env, term, args, event), saveat=env["saveat"], dt0=env.get("dt0"), max_steps=env.get("max_steps", 4096))

    def fs(env, term, args, event):
        return dict(base(env, term, args, event), dt0=env["dt"], max_steps=env.get("max_steps", 4096),
                    stepsize_controller=constant_step, saveat=dx.SaveAt(t0=True, steps=True))

    def ads(env, term, args, event):
        return dict(base(env, term, args, event), max_steps=env.get("max_steps", 4096), saveat=dx.SaveAt(t0=True, steps=True))

    def cs(env, term, args, event):
        return dict(base(env, term, args, event), max_steps=None, saveat=dx.SaveAt(ts=env["ts"]))

    def tf(env, term, args, event):
        return dict(base(env, term, args, event), max_steps=4096, saveat=dx.SaveAt(t1=True))
    P = "astrodynx.prop"
    CowellContract("cowell_method", f"{P}:cowell_method",
                   {"required": ["saveat"], "optional": ["dt0", "max_steps", "solver", "stepsize_controller"]}, cm)
    CowellContract("fixed_steps", f"{P}:fixed_steps", {"required": ["dt"], "optional": ["max_steps", "solver"]}, fs)
    CowellContract("adaptive_steps", f"{P}:adaptive_steps",
                   {"required": [], "optional": ["max_steps", "solver", "stepsize_controller"]}, ads)
    CowellContract("custom_steps", f"{P}:custom_steps", {"required": ["ts"], "optional": ["solver", "stepsize_controller"]}, cs)
    CowellContract("to_final", f"{P}:to_final", {"required": [], "optional": ["solver", "stepsize_controller"]}, tf)


def orbdynx_record(session):
    """OrbDynx: three fields in order, documented defaults, values kept"""
    from astrodynx import prop
    obls = []

    def ob(label, ok, why):
        o = Obl("OrbDynx", "-", "ensures", label)
        o.status, o.backend = ("proved", "symbolic execution") if ok else ("failed", "")
        o.why = "" if ok else why
        if not ok:
            o.witness = {"kind": "record", "detail": why}
        obls.append(o)
    s = [object(), object(), object()]
    d = prop.OrbDynx(*s)
    ob("positional fields terms, args, event", d.terms is s[0] and d.args is s[1] and d.event is s[2], repr(d))
    d = prop.OrbDynx(terms=s[0])
    ob("default args {'mu': 1.0}", d.args == {"mu": 1.0}, repr(d.args))
    ob("default event None", d.event is None, repr(d.event))
    import diffrax
    from astrodynx import diffeq
    for n in ("diffeqsolve", "ODETerm", "Event", "SaveAt", "SubSaveAt", "Solution", "ConstantStepSize", "PIDController", "Tsit5",
              "AbstractSolver", "AbstractStepSizeController"):
        ob(f"diffeq.{n} is diffrax.{n}", getattr(diffeq, n, None) is getattr(diffrax, n), n)
    return obls


def traceable(session):
    """the numerical propagators with the real integrator: compiled and batched over initial states"""
    import diffrax as dx
    from astrodynx import prop
    obls = []
    for name in ("cowell_method", "fixed_steps", "adaptive_steps", "custom_steps", "to_final"):
        c = REGISTRY[name]
        kw = {q: {"dt": 0.05, "ts": jnp.linspace(0.0, 1.0, 3), "saveat": dx.SaveAt(t1=True)}[q] for q in c.extras["required"]}
        term = dx.ODETerm(vf)
        ev = dx.Event(lambda t, y, args, **k: y[0] ** 2 - args["rmin"])
        for kind, event in (("jit", None), ("jit with event", ev), ("vmap", None)):
            o = Obl(name, "real integrator", "traceable", kind)
            obls.append(o)

            def g(x0, t1, mu):
                return c.func()(prop.OrbDynx(term, {"mu": mu, "rmin": 0.1}, event), x0, t1, **kw).ys
            try:
                S = jax.ShapeDtypeStruct
                if kind == "vmap":
                    out = jax.eval_shape(jax.vmap(g, in_axes=(0, 0, None)), S((2, 6), np.float64), S((2,), np.float64), S((), np.float64))
                else:
                    out = jax.eval_shape(g, S((6,), np.float64), S((), np.float64), S((), np.float64))
                bad = [str(x.dtype) for x in jax.tree_util.tree_leaves(out) if x.dtype != np.float64]
                if bad:
                    o.status, o.why = "failed", f"result types {bad}"
                    o.witness = {"kind": "precision", "function": c.path, "result_types": bad}
                else:
                    o.status, o.backend = "proved", "jaxpr"
            except Exception as e:
                o.status, o.why = "failed", f"{type(e).__name__}: {str(e)[:300]}"
                o.witness = {"kind": kind, "function": c.path, "error": o.why}
                return obls
    return obls


def default_calls(session):
    """the numerical propagators with every optional argument left out"""
    obls = []
    from astrodynx import prop
    for name in ("cowell_method", "fixed_steps", "adaptive_steps", "custom_steps", "to_final"):
        c = REGISTRY[name]
        obls += c.verify_one(session, c.func(), prop, "defaults", ())
    return obls
