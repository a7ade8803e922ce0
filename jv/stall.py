"""Loop tests under vmap.

A vmapped while loop evaluates its test twice per iteration: once to decide whether to go on, once to decide which lanes to
update.  A test that rounds (a residual computed in it) may come out differently in the two, and then the loop goes on and
changes nothing, for ever.  A test built from comparisons, Boolean operations and at most one rounded operation on loop
variables, parameters and constants has one value, so the variant proved for one lane bounds the batched loop too."""
from __future__ import annotations
import os
import subprocess
import sys
import threading

import numpy as np

EXACT = {"abs", "neg", "max", "min", "sign", "select_n", "clamp", "stop_gradient", "copy", "copy_p", "reshape", "squeeze",
         "broadcast_in_dim", "slice", "dynamic_slice", "gather", "concatenate", "transpose", "rev", "reduce_or", "reduce_and",
         "reduce_max", "reduce_min", "is_finite", "and", "or", "not", "xor", "lt", "le", "gt", "ge", "eq", "ne", "floor", "ceil",
         "round", "expand_dims", "real", "reduce_precision", "optimization_barrier"}
ONCE = {"add", "sub", "mul", "div", "square", "add_any", "convert_element_type"}
COMPARE = {"lt", "le", "gt", "ge", "eq", "ne", "is_finite"}


def rounds(closed):
    """name of the operation that makes the test inexact, or None"""
    bad = []

    def run(jaxpr, ins):
        depth = dict(zip(jaxpr.invars, ins))
        d = lambda v: depth.get(v, 0) if not hasattr(v, "val") else 0
        for e in jaxpr.eqns:
            n = e.primitive.name
            into = [d(v) for v in e.invars]
            top = max(into, default=0)
            sub = e.params.get("jaxpr") or e.params.get("call_jaxpr")
            real = any(np.issubdtype(np.dtype(getattr(v.aval, "dtype", np.float64)), np.inexact) for v in e.outvars)
            if sub is not None and n not in ("while", "scan"):
                j = getattr(sub, "jaxpr", sub)
                out = run(j, into[len(into) - len(j.invars):])
            elif n in COMPARE:
                if top > 1:
                    bad.append(n)
                out = [0] * len(e.outvars)
            elif n in EXACT:
                out = [top] * len(e.outvars)
            elif not real and n in ONCE | {"sub", "rem", "max", "min"}:
                out = [top] * len(e.outvars)
            elif n in ONCE:
                same = n == "convert_element_type" and not np.issubdtype(np.dtype(e.invars[0].aval.dtype), np.inexact)
                out = [top if same else top + 1] * len(e.outvars)
                if top >= 1 and not same:
                    bad.append(n)
            else:
                bad.append(n)
                out = [top + 2] * len(e.outvars)
            depth.update(zip(e.outvars, out))
        return [d(v) for v in jaxpr.outvars]
    run(closed.jaxpr, [0] * len(closed.jaxpr.invars))
    return bad[0] if bad else None


def batches(c, n):
    """[(label, {parameter: array}, options)]"""
    from . import terms as tm
    from .contract import C, SPECIAL, SEED
    base = [p for p in c.params if p.name not in ("tol", "max_iter")]
    out = []
    for k, (special, tol) in enumerate(((True, None), (True, 1e-9), (False, 1e-12), (False, 1e-14))):
        rng = np.random.default_rng(5 + k + 100 * SEED)
        env = {}
        for p in base:
            v = c.draw_param(p, rng, n)
            if special:
                mode = rng.integers(0, 4, n)
                v = np.where(mode == 0, rng.choice(SPECIAL, n), v)
                v = np.where(mode == 1, v * np.exp(rng.uniform(-5, 5, n)), v)
            env[tm.var(p.name)] = v
        if c.extra_samples:
            c.extra_samples(env, rng, n, special)
        cons = {p.name: C(tm.var(p.name)) for p in base}
        cons["tol"], cons["max_iter"] = C(1e-6), C(c.budget[1])
        ok = np.ones(n, bool)
        for h in c.pre(**cons):
            ok &= np.broadcast_to(np.asarray(tm.evaluate_np([h], env)[0], bool), (n,))
        kw = {} if tol is None else {"tol": tol}
        vals = {p.name: env[tm.var(p.name)][ok] for p in base}
        out.append((vals, kw))
        if set(vals) == {"deltat", "alpha", "r0", "sigma0", "mu"}:      # the same orbits in kilometres and seconds
            L, mu = 1e4, 398600.4418
            t = np.sqrt(L ** 3 / mu) * np.exp(rng.uniform(0, 5, ok.sum()))
            out.append(({"deltat": vals["deltat"] * t * np.sqrt(vals["mu"]), "alpha": vals["alpha"] / L, "r0": vals["r0"] * L,
                         "sigma0": vals["sigma0"] * np.sqrt(L), "mu": np.full(ok.sum(), mu)}, kw))
    return out


def main():
    name, k, lo, hi = sys.argv[1], *map(int, sys.argv[2:5])
    sys.setrecursionlimit(20000)
    from . import boot
    boot.load()
    import jax
    import jax.numpy as jnp
    import contracts      # noqa: F401
    from .contract import REGISTRY
    c = REGISTRY[name]
    f = c.func()
    vals, kw = batches(c, N)[k]
    a = {m: jnp.asarray(v[lo:hi]) for m, v in vals.items()}
    run = jax.jit(jax.vmap(lambda d: f(**d, **kw))).lower(a).compile()
    print("ready", flush=True)
    run(a).block_until_ready()
    print("done", flush=True)
    if hi - lo <= 4:
        print({**{m: np.asarray(v).tolist() for m, v in a.items()}, **kw})


N = 40000


def ends(name, k, lo, hi, wait=20, compile_=120):
    """True / False (never ended within `wait` s of being ready) / None (could not be run)"""
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    p = subprocess.Popen([sys.executable, "-m", "jv.stall", name, str(k), str(lo), str(hi)], cwd=root, stdout=subprocess.PIPE,
                         stderr=subprocess.DEVNULL, text=True)
    guard = threading.Timer(compile_, p.kill)
    guard.start()
    try:
        if p.stdout.readline().strip() != "ready":
            return None
        guard.cancel()
        try:
            p.wait(wait)
            return True if p.returncode == 0 else None
        except subprocess.TimeoutExpired:
            return False
    finally:
        guard.cancel()
        p.kill()
        p.wait()


def search(c):
    """(batches that ended, witness or None)"""
    bs = batches(c, N)
    count = 0
    for k, (vals, kw) in enumerate(bs):
        lo, hi = 0, len(next(iter(vals.values())))
        r = ends(c.name, k, lo, hi)
        if r is None:
            continue
        if r:
            count += 1
            continue
        for _ in range(16):      # narrow the batch down
            if hi - lo <= 1:
                break
            mid = (lo + hi) // 2
            if ends(c.name, k, lo, mid, wait=8) is False:
                hi = mid
            elif ends(c.name, k, mid, hi, wait=8) is False:
                lo = mid
            else:
                break
        return count, {"kind": "non-termination", "how": f"jax.vmap({c.name}) over a batch of {hi - lo} does not return",
                       "inputs": {m: v[lo:hi][:8].tolist() for m, v in vals.items()}, "options": kw,
                       "replay": f"python -m jv.stall {c.name} {k} {lo} {hi}  (in /verif)"}
    return count, None


if __name__ == "__main__":
    main()
