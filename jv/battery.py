"""Engine conformance: terms extracted from small jax programs, evaluated numerically, equal real execution."""
import numpy as np
import jax
import jax.numpy as jnp
from jax import lax
from . import extract as ex, terms as tm

A = (3,)
PROGS = {
    "cumsum": (lambda a, b: jnp.cumsum(a * b), A, A), "cumprod": (lambda a, b: jnp.cumprod(a), A, A),
    "einsum": (lambda a, b: jnp.einsum("i,j->ij", a, b), A, A), "einsum2": (lambda a, b: jnp.einsum("i,i->", a, b), A, A),
    "roll": (lambda a, b: jnp.roll(a, 1) * jnp.roll(b, -1), A, A), "norm": (lambda a, b: jnp.linalg.norm(a - b), A, A),
    "normax": (lambda a, b: jnp.linalg.norm(a[None] - b[None], axis=-1, keepdims=True), A, A),
    "cross": (lambda a, b: jnp.cross(a, b), A, A), "lcross": (lambda a, b: jnp.linalg.cross(a, b), A, A),
    "dot": (lambda a, b: jnp.dot(a, b), A, A), "vdot": (lambda a, b: jnp.vdot(a, b), A, A), "vecdot": (lambda a, b: jnp.vecdot(a, b), A, A),
    "inner": (lambda a, b: jnp.inner(a, b), A, A), "outer": (lambda a, b: jnp.outer(a, b), A, A), "at": (lambda a, b: a @ b, A, A),
    "tensordot": (lambda a, b: jnp.tensordot(a, b, axes=0), A, A), "kron": (lambda a, b: jnp.kron(a, b), A, A),
    "where": (lambda a, b: jnp.where(a > b, a, b), A, A), "select": (lambda a, b: jnp.select([a > 0, b > 0], [a, b], a + b), A, A),
    "piecewise": (lambda a, b: jnp.piecewise(a, [a < 0, a >= 0], [lambda x: -x, lambda x: 2 * x]), A, A),
    "clip": (lambda a, b: jnp.clip(a, -0.5, 0.5), A, A), "maximum": (lambda a, b: jnp.maximum(a, jnp.minimum(b, 0.1)), A, A),
    "max": (lambda a, b: jnp.max(a) + jnp.min(b), A, A), "prod": (lambda a, b: jnp.prod(a), A, A), "mean": (lambda a, b: jnp.mean(a), A, A),
    "matmul": (lambda a, b: jnp.stack([a, b, a * b]) @ jnp.stack([b, a, a]), A, A),
    "T": (lambda a, b: jnp.stack([a, b]).T, A, A), "block": (lambda a, b: jnp.block([[jnp.outer(a, b), jnp.eye(3)], [jnp.zeros((3, 3)), jnp.outer(b, b)]]), A, A),
    "atset": (lambda a, b: jnp.zeros((3, 3)).at[0, 1].set(a[0]).at[1:, 2].set(b[1:]), A, A), "atadd": (lambda a, b: a.at[1].add(b[2]), A, A),
    "atmul": (lambda a, b: a.at[0].multiply(b[2]), A, A), "take": (lambda a, b: jnp.take(a, jnp.array([2, 0])), A, A),
    "scan": (lambda a, b: lax.scan(lambda c, y: (c + y * b[0], c * y), 1.0, a), A, A),
    "fori": (lambda a, b: lax.fori_loop(0, 4, lambda i, s: s * a + b, jnp.zeros(3)), A, A),
    "map": (lambda a, b: lax.map(lambda x: x * x + b[0], a), A, A), "vmap": (lambda a, b: jax.vmap(lambda x, y: x * y - 1)(a, b), A, A),
    "vmapin": (lambda a, b: jax.vmap(lambda x: x * b)(a), A, A), "jit": (lambda a, b: jax.jit(lambda x: x + b)(a), A, A),
    "cond": (lambda a, b: lax.cond(a[0] > 0, lambda: a, lambda: b), A, A),
    "switch": (lambda a, b: lax.switch(jnp.where(a[0] > 0, 0, jnp.where(b[0] > 0, 1, 2)), [lambda: a, lambda: b, lambda: a + b]), A, A),
    "vmapcond": (lambda a, b: jax.vmap(lambda x, y: lax.cond(x > y, lambda: x, lambda: y))(a, b), A, A),
    "polyval": (lambda a, b: jnp.polyval(a, b[0]), A, A), "hypot": (lambda a, b: jnp.hypot(a, b), A, A), "mod": (lambda a, b: jnp.mod(a, 2 * jnp.pi), A, A),
    "remainder": (lambda a, b: jnp.remainder(a, b), A, A), "fmod": (lambda a, b: jnp.fmod(a, b), A, A), "floordiv": (lambda a, b: a // b, A, A),
    "floor": (lambda a, b: jnp.floor(a) + jnp.ceil(b), A, A), "trunc": (lambda a, b: jnp.trunc(3 * a), A, A), "round": (lambda a, b: jnp.round(3 * a), A, A),
    "int": (lambda a, b: (3 * a).astype(int) * 1.0, A, A), "sign": (lambda a, b: jnp.sign(a) * jnp.abs(b), A, A), "copysign": (lambda a, b: jnp.copysign(a, b), A, A),
    "tan": (lambda a, b: jnp.tan(a) + jnp.arctan(b), A, A), "atan2": (lambda a, b: jnp.arctan2(a, b), A, A),
    "asin": (lambda a, b: jnp.arcsin(jnp.tanh(a)) + jnp.arccos(jnp.tanh(b)), A, A), "exp": (lambda a, b: jnp.exp(a) + jnp.log(b * b + 1), A, A),
    "sinh": (lambda a, b: jnp.sinh(a) + jnp.cosh(b) + jnp.tanh(a), A, A), "asinh": (lambda a, b: jnp.arcsinh(a) + jnp.arccosh(1 + b * b) + jnp.arctanh(jnp.tanh(a)), A, A),
    "expm1": (lambda a, b: jnp.expm1(a) + jnp.log1p(b * b), A, A), "pow": (lambda a, b: (a * a + 1) ** 1.5 + (b * b) ** 0.5, A, A),
    "pow2": (lambda a, b: a ** 3 + b ** -2 + jnp.power(a, 2) + jnp.float_power(b * b, 0.5), A, A), "cbrt": (lambda a, b: jnp.cbrt(a), A, A), "rsqrt": (lambda a, b: lax.rsqrt(a * a + 1), A, A),
    "square": (lambda a, b: jnp.square(a) + jnp.reciprocal(b), A, A), "deg2rad": (lambda a, b: jnp.deg2rad(a) + jnp.rad2deg(b), A, A),
    "sinc": (lambda a, b: jnp.sinc(a), A, A), "unwrap": (lambda a, b: jnp.array([a[0], b[0]]), A, A),
    "any": (lambda a, b: jnp.any(a > 0) & jnp.all(b < 3) | ~(a[0] > b[0]), A, A), "logic": (lambda a, b: jnp.logical_xor(a > 0, b > 0), A, A),
    "eq": (lambda a, b: (a == b) | (a != b), A, A), "isfinite": (lambda a, b: jnp.where(jnp.isfinite(a), a, b), A, A), "isnan": (lambda a, b: jnp.where(jnp.isnan(a), b, a), A, A),
    "nannum": (lambda a, b: jnp.nan_to_num(a), A, A), "linspace": (lambda a, b: jnp.linspace(a[0], b[0], 4), A, A), "split": (lambda a, b: jnp.split(jnp.concatenate([a, b]), 2)[1], A, A),
    "flip": (lambda a, b: jnp.flip(a) + b[::-1], A, A), "diag": (lambda a, b: jnp.diag(a) + jnp.diagonal(jnp.outer(a, b)), A, A), "trace": (lambda a, b: jnp.trace(jnp.outer(a, b)), A, A),
    "tile": (lambda a, b: jnp.tile(a, 2), A, A), "repeat": (lambda a, b: jnp.repeat(a, 2), A, A), "swap": (lambda a, b: jnp.swapaxes(jnp.outer(a, b), 0, 1), A, A),
    "moveaxis": (lambda a, b: jnp.moveaxis(jnp.outer(a, b), 0, -1), A, A), "squeeze": (lambda a, b: jnp.squeeze(a[None, :, None]) + jnp.expand_dims(b, 0), A, A),
    "pad": (lambda a, b: jnp.pad(a, (1, 2)), A, A), "triu": (lambda a, b: jnp.triu(jnp.outer(a, b)), A, A), "dynslice": (lambda a, b: lax.dynamic_slice(a, (1,), (2,)), A, A),
    "index": (lambda a, b: a[..., -1] * b[jnp.array(1)], A, A), "ravel": (lambda a, b: jnp.ravel(jnp.outer(a, b)), A, A), "meshgrid": (lambda a, b: jnp.meshgrid(a, b)[0], A, A),
    "det": (lambda a, b: jnp.linalg.det(jnp.stack([a, b])[:, :2]), A, A), "det3": (lambda a, b: jnp.linalg.det(jnp.stack([a, b, a * b])), A, A),
    "stopgrad": (lambda a, b: lax.stop_gradient(a) * b, A, A), "grad": (lambda a, b: jax.grad(lambda x: jnp.sum(jnp.sin(x) * b))(a), A, A),
    "jacfwd": (lambda a, b: jax.jacfwd(lambda x: jnp.cos(x) * b)(a), A, A), "while": (lambda a, b: lax.while_loop(lambda s: s[1] < 3, lambda s: (s[0] * a, s[1] + 1), (b, 0))[0], A, A),
    "vectorize": (lambda a, b: jnp.vectorize(lambda x, y: x * y)(a, b), A, A), "applyalong": (lambda a, b: jnp.apply_along_axis(jnp.sum, 0, a), A, A),
    "sum": (lambda a, b: jnp.sum(jnp.outer(a, b), axis=1, keepdims=True), A, A), "hstack": (lambda a, b: jnp.hstack([a, b]) + jnp.r_[a, b], A, A),
    "column": (lambda a, b: jnp.column_stack([a, b]), A, A), "multidot": (lambda a, b: jnp.linalg.multi_dot([jnp.outer(a, b), jnp.outer(b, a), a]), A, A),
    "matvec": (lambda a, b: jnp.matvec(jnp.outer(a, b), b), A, A), "heaviside": (lambda a, b: jnp.heaviside(a, 0.5), A, A), "fix": (lambda a, b: jnp.fix(3 * a), A, A),
    "diff": (lambda a, b: jnp.diff(a), A, A), "ptp": (lambda a, b: jnp.ptp(a), A, A), "average": (lambda a, b: jnp.average(a), A, A), "divmod": (lambda a, b: jnp.divmod(a, 0.7)[1], A, A),
    "cos_sin": (lambda a, b: jnp.cos(a) ** 2 + jnp.sin(b) ** 2, A, A), "complex": (lambda a, b: jnp.real(jnp.exp(1j * a)), A, A), "angle": (lambda a, b: jnp.angle(a + 1j * b), A, A),
    "sort": (lambda a, b: jnp.sort(a), A, A), "argmax": (lambda a, b: a[jnp.argmax(b)], A, A), "inv": (lambda a, b: jnp.linalg.inv(jnp.outer(a, b) + jnp.eye(3)), A, A),
    "checkpoint": (lambda a, b: jax.checkpoint(lambda x: jnp.sin(x))(a) * b, A, A),
    "customjvp": (lambda a, b: jax.nn.softplus(a) + jax.nn.relu(b), A, A), "lerp": (lambda a, b: jnp.interp(0.3, jnp.array([0.0, 1.0]), jnp.array([0.0, 2.0])) * a, A, A),
    "searchsorted": (lambda a, b: jnp.where(a > 0, 1, 0) * b, A, A), "treesum": (lambda a, b: sum([a[i] * b[i] for i in range(3)]), A, A),
}


def check(verbose=False):
    rng = np.random.default_rng(0)
    res = {}
    for n, (f, sa, sb) in PROGS.items():
        try:
            ctx = ex.Ctx({})
            outs, tree, dts, closed = ex.extract(f, [jax.ShapeDtypeStruct(sa, np.float64), jax.ShapeDtypeStruct(sb, np.float64)],
                                                 [ex.symbolic("a", sa), ex.symbolic("b", sb)], ctx)
        except Exception as e:
            res[n] = ("unsupported", f"{type(e).__name__}: {str(e)[:120]}")
            continue
        ok, det = True, ""
        for _ in range(12):
            a, b = rng.normal(size=sa), rng.normal(size=sb)
            env = {v: float(x) for s, arr in ((ex.symbolic("a", sa), a), (ex.symbolic("b", sb), b)) for v, x in zip(s.ravel(), arr.ravel())}
            real = [np.asarray(x).ravel() for x in jax.tree_util.tree_leaves(f(jnp.asarray(a), jnp.asarray(b)))]
            try:
                got = [np.array([float(x) for x in tm.evaluate_mp(list(o.ravel()), env)]) for o in outs]
            except Exception as e:
                ok, det = False, repr(e)[:200]
                break
            for g, r in zip(got, real):
                if g.shape != r.shape or not np.allclose(g, r.astype(float), rtol=1e-9, atol=1e-12):
                    ok, det = False, f"{g} {r}"
        if ctx.loops:
            res[n] = ("havoc", "")
        else:
            res[n] = ("ok" if ok else "WRONG", det)
    return res
