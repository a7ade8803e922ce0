"""Lemmas over the contracts: each is a goal about the postconditions (specs), discharged by the same prover."""
from fractions import Fraction
import time
import zlib
import numpy as np
from jv import terms as tm, contract as ct
from jv.terms import ZERO, ONE, PI, var
from jv.contract import Obl, draw, cross, dot, norm, _o, pos, nonneg, nonzero
from jv.solve import Samples, Unproved
import contracts as K


def syms(name, n):
    return np.array([var(f"{name}_{i}") for i in range(n)], dtype=object)


class Lem:
    """collects goals"""

    def __init__(self, session, name, dists, hyps=()):
        self.S, self.name, self.hyps = session, name, [h for h in hyps if h is not tm.TT]
        rng = np.random.default_rng(zlib.crc32(name.encode()) + ct.SEED)
        n = 3000
        env = {v: draw(d, rng, n) for v, d in dists.items()}
        ok = np.ones(n, bool)
        for h in self.hyps:
            if all(v in env for v in tm.free_vars(h)):
                ok &= np.broadcast_to(np.asarray(tm.evaluate_np([h], env)[0], bool), (n,))
        if ok.sum() < 5:
            raise RuntimeError(f"lemma {name}: hypotheses unsatisfied by every sample")
        self.samples = Samples({k: v[ok] for k, v in env.items()})
        self.obls = []

    def eq(self, label, a, b, hyps=(), expand=False):
        for i in np.ndindex(*np.broadcast_shapes(_o(a).shape, _o(b).shape)):
            x = tm.lift(np.broadcast_to(_o(a), np.broadcast_shapes(_o(a).shape, _o(b).shape))[i])
            y = tm.lift(np.broadcast_to(_o(b), np.broadcast_shapes(_o(a).shape, _o(b).shape))[i])
            o = Obl(self.name, "lemma", "lemma", label + (str(list(i)) if i else ""))
            t0 = time.time()
            try:
                self.S.prove_pair(x, y, self.hyps + list(hyps), self.samples, o.label)
                o.status, o.backend = "proved", "ring+z3"
            except Unproved as u:
                o.status, o.why = "failed", str(u.why)[:800]
            o.time = time.time() - t0
            self.obls.append(o)

    def holds(self, label, g, hyps=()):
        o = Obl(self.name, "lemma", "lemma", label)
        t0 = time.time()
        try:
            p = self.S.prover(self.hyps + list(hyps), self.samples)
            with ct.time_limit(self.S.limit):
                p.prove(g, label)
            o.status, o.backend = "proved", "ring+z3"
        except Unproved as u:
            o.status, o.why = "failed", str(u.why)[:800]
        o.time = time.time() - t0
        self.obls.append(o)


def matmul(a, b):
    return np.array([[tm.add(*[a[i, k] * b[k, j] for k in range(a.shape[1])]) for j in range(b.shape[1])]
                     for i in range(a.shape[0])], dtype=object)


def det3(m):
    return (m[0, 0] * (m[1, 1] * m[2, 2] - m[1, 2] * m[2, 1]) - m[0, 1] * (m[1, 0] * m[2, 2] - m[1, 2] * m[2, 0])
            + m[0, 2] * (m[1, 0] * m[2, 1] - m[1, 1] * m[2, 0]))


def a0(x):
    return np.array(x, dtype=object)


# ------------------------------------------------------------------------------------------------ C01
def rotations(S):
    a, b = var("a"), var("b")
    L = Lem(S, "rotations", {a: "angle", b: "angle"})
    for n, ax in (("x", 0), ("y", 1), ("z", 2)):
        R = K.axis_rotation(ax)
        ra, rb = R(a0(a)), R(a0(b))
        L.eq(f"R{n} R{n}^T = I", matmul(ra, ra.T), K.eye())
        L.eq(f"det R{n} = 1", det3(ra), ONE)
        L.eq(f"R{n}(a) R{n}(b) = R{n}(a+b)", matmul(ra, rb), R(a0(a + b)))
        L.eq(f"R{n}(-a) = R{n}(a)^T", R(a0(tm.neg(a))), ra.T)
        v = np.array([ZERO] * 3, dtype=object)
        v[ax] = ONE
        L.eq(f"R{n} fixes its axis", matmul(ra, v[:, None])[:, 0], v)
        w = np.array([ZERO] * 3, dtype=object)
        w[(ax + 1) % 3] = ONE
        u = np.array([ZERO] * 3, dtype=object)
        u[(ax + 1) % 3], u[(ax + 2) % 3] = tm.fn("cos", a), tm.fn("sin", a)
        L.eq(f"R{n} turns counter-clockwise", matmul(ra, w[:, None])[:, 0], u)
    return L.obls


# ------------------------------------------------------------------------------------------------ C02
def gravity(S):
    X = syms("x", 6)
    mu, J, R = var("mu"), var("J"), var("R")
    L = Lem(S, "gravity", {**{x: "any" for x in X}, mu: "pos", J: "small", R: "pos"}, K._r3(X) + [tm.lt(ZERO, mu)])
    for n in (0, 2, 3, 4):
        acc = K.zonal_acc(n)(a0(ZERO), X, a0(mu), a0(J), a0(R))
        curl = [tm.diff(acc[2], X[1]) - tm.diff(acc[1], X[2]), tm.diff(acc[0], X[2]) - tm.diff(acc[2], X[0]),
                tm.diff(acc[1], X[0]) - tm.diff(acc[0], X[1])]
        L.eq(f"curl a_{n} = 0", a0(curl), ZERO)
        L.eq(f"div a_{n} = 0 (Laplace)", tm.add(*[tm.diff(acc[i], X[i]) for i in range(3)]), ZERO)
        L.eq(f"no torque about the polar axis ({n})", X[0] * acc[1] - X[1] * acc[0], ZERO)
    return L.obls


# ------------------------------------------------------------------------------------------------ C03 / C04
def integrals(S):
    r, v, mu = syms("r", 3), syms("v", 3), var("mu")
    L = Lem(S, "integrals", {**{x: "any" for x in list(r) + list(v)}, mu: "pos"}, K.rpos(r) + [tm.lt(ZERO, mu)])
    h, e = cross(r, v), K.ecc_vec(r, v, a0(mu))
    R, V2 = norm(r)[()], dot(v, v)[()]
    p = dot(h, h)[()] / mu
    inv_a = 2 / R - V2 / mu
    L.eq("h . r = 0", dot(h, r), ZERO)
    L.eq("h . v = 0", dot(h, v), ZERO)
    L.eq("h . e = 0", dot(h, e), ZERO)
    L.eq("e^2 = 1 - p/a", dot(e, e), ONE - p * inv_a)
    L.eq("r (1 + e cos f) = p", R + dot(e, r)[()], p)
    # constancy along every two-body motion: d/dt with r' = v, v' = -mu r / r^3
    memo = {}

    def ddt(t):
        g = [tm.diff(t, x) for x in list(r) + list(v)]
        acc = [-mu * x / R ** 3 for x in r]
        return tm.add(*[a * b for a, b in zip(g, list(v) + acc)])
    for i in range(3):
        L.eq(f"dh/dt = 0 [{i}]", ddt(h[i]), ZERO)
        L.eq(f"de/dt = 0 [{i}]", ddt(e[i]), ZERO)
    L.eq("d(1/a)/dt = 0", ddt(inv_a), ZERO)
    L.eq("dp/dt = 0", ddt(p), ZERO)
    return L.obls


def conversions(S):
    a, e, mu, p, T_ = var("a"), var("e"), var("mu"), var("p"), var("T")
    L = Lem(S, "conversions", {a: "pos", e: (0.0, 0.95), mu: "pos", p: "pos", T_: "pos"},
            [tm.lt(ZERO, x) for x in (a, mu, p, T_)] + [tm.le(ZERO, e), tm.lt(e, ONE)])
    sp = lambda n, *x: ct.REGISTRY[n].spec(*[a0(y) for y in x])
    f = lambda x: tm.lift(_o(x)[()])
    L.eq("a(P(a)) = a", f(sp("a_from_period", f(sp("orb_period", a, mu)), mu)), a)
    L.eq("P(a(P)) = P", f(sp("orb_period", f(sp("a_from_period", T_, mu)), mu)), T_)
    L.eq("a(p(a,e),e) = a", f(sp("a_from_pe", f(sp("semipara_from_ae", a, e)), e)), a)
    L.eq("p(a(p,e),e) = p", f(sp("semipara_from_ae", f(sp("a_from_pe", p, e)), e)), p)
    rp, ra = f(sp("radius_periapsis", p, e)), f(sp("radius_apoapsis", p, e))
    L.eq("rp + ra = 2 a", rp + ra, 2 * f(sp("a_from_pe", p, e)))
    L.eq("rp = r(f = 0)", rp, f(sp("equ_of_orbit", p, e, ZERO)))
    L.eq("ra = r(f = pi)", ra, f(sp("equ_of_orbit", p, e, PI)))
    L.eq("n P = 2 pi", f(sp("mean_motion", T_)) * T_, 2 * PI)
    L.eq("n^2 a^3 = mu", f(sp("mean_motion", f(sp("orb_period", a, mu)))) ** 2 * a ** 3, mu)
    L.eq("M advances by 2 pi per period", f(sp("mean_anomaly_elps", a, f(sp("orb_period", a, mu)), mu)), 2 * PI)
    return L.obls


# ------------------------------------------------------------------------------------------------ C05
def Uv(n, chi, al):
    return tm.fn(f"U{n}", chi, al)


def universal(S):
    x, al, y = var("chi"), var("alpha"), var("psi")
    L = Lem(S, "universal", {x: "any", al: "any", y: "any"})
    import math
    for n in range(4):
        L.eq(f"U{n} + alpha U{n + 2} = chi^{n}/{n}!", Uv(n, x, al) + al * Uv(n + 2, x, al), x ** n / math.factorial(n))
    for n in range(1, 6):
        L.eq(f"dU{n}/dchi = U{n - 1}", tm.diff(tm.expand(Uv(n, x, al)), x), Uv(n - 1, x, al))
    L.eq("U0^2 + alpha U1^2 = 1", Uv(0, x, al) ** 2 + al * Uv(1, x, al) ** 2, ONE)
    L.eq("U1^2 = U2 (1 + U0)", Uv(1, x, al) ** 2, Uv(2, x, al) * (1 + Uv(0, x, al)))
    for n in range(6):
        L.eq(f"U{n}(-chi) = (-1)^{n} U{n}(chi)", Uv(n, tm.neg(x), al), (-1) ** n * Uv(n, x, al))
        L.eq(f"U{n}(0)", Uv(n, ZERO, al), ONE if n == 0 else ZERO)
    L.eq("U1 addition", Uv(1, x + y, al), Uv(1, x, al) * Uv(0, y, al) + Uv(0, x, al) * Uv(1, y, al))
    return L.obls


# ------------------------------------------------------------------------------------------------ C06
def kepler_equations(S):
    E, e, M, H, N = var("E"), var("e"), var("M"), var("H"), var("N")
    x, al, r0, s0, dt, mu = (var(n) for n in ("chi", "alpha", "r0", "sigma0", "dt", "mu"))
    L = Lem(S, "kepler_equations", {E: "angle", e: "ecc", M: "angle", H: "any", N: "any", x: "any", al: "any", r0: "pos",
                                    s0: "any", dt: "any", mu: "pos"}, [tm.lt(ZERO, mu), tm.lt(ZERO, r0), tm.le(ZERO, e)])
    sp = lambda n, *z: tm.lift(_o(ct.REGISTRY[n].spec(*[a0(y) for y in z]))[()])
    L.eq("dE is the slope", tm.diff(sp("kepler_equ_elps", E, e, M), E), sp("dE", E, e))
    L.eq("dH is the slope", tm.diff(sp("kepler_equ_hypb", H, e, N), H), sp("dH", H, e))
    L.holds("elliptic slope positive", tm.lt(ZERO, sp("dE", E, e)), [tm.lt(e, ONE)])
    L.holds("hyperbolic slope positive", tm.lt(ZERO, sp("dH", H, e)), [tm.lt(ONE, e)])
    f = tm.expand(sp("kepler_equ_uni", x, al, r0, s0, dt, mu))
    L.eq("slope of the universal equation is the radius", tm.diff(f, x),
         sp("equ_of_orb_uvi", Uv(0, x, al), Uv(1, x, al), Uv(2, x, al), r0, s0))
    return L.obls


# ------------------------------------------------------------------------------------------------ C07
def taylor_sin(p, x):
    """|sin x - sin p - (x-p) cos p| <= (x-p)^2/2   (proved in lean/Axioms.lean: sin_taylor)"""
    d = tm.fn("sin", x) - tm.fn("sin", p) - (x - p) * tm.fn("cos", p)
    b = (x - p) ** 2 / 2
    return [tm.le(d, b), tm.le(tm.neg(d), b)]


def newton_exit(S):
    """step criterion of the elliptic solver: x = Newton(p), |x - p| <= tol <= 1  =>  |f(x)| <= tol"""
    p, h, e, tol = var("p"), var("h"), var("e"), var("tol")
    # M is eliminated with the step equation:  M = p - e sin p + h (1 - e cos p),  x = p + h
    sx, sp, cp = var("sx"), var("sp"), var("cp")      # sin x, sin p, cos p: only the Taylor bound is used
    L = Lem(S, "newton_exit", {p: "any", h: (-0.5, 0.5), e: "ecc", tol: (0.01, 1.0), sx: (-1, 1), sp: (-1, 1), cp: (-1, 1)},
            [tm.le(ZERO, e), tm.lt(e, ONE), tm.lt(ZERO, tol), tm.le(tol, ONE), tm.le(h, tol), tm.le(tm.neg(h), tol)])
    M = p - e * sp + h * (1 - e * cp)
    f = (p + h) - e * sx - M
    t = sx - sp - h * cp
    L.eq("f(x) = -e (sin x - sin p - h cos p)", f, tm.neg(e * t))
    w = var("w")
    L2 = Lem(S, "newton_exit", {w: (-0.05, 0.05), h: (-0.5, 0.5), e: "ecc", tol: (0.01, 1.0)},
             [tm.le(ZERO, e), tm.lt(e, ONE), tm.lt(ZERO, tol), tm.le(tol, ONE), tm.le(h, tol), tm.le(tm.neg(h), tol),
              tm.le(w, h * h / 2), tm.le(tm.neg(w), h * h / 2)])
    L2.holds("h^2 <= tol^2", tm.le(h * h, tol * tol))
    L2.holds("|w| <= tol^2/2", tm.le(w, tol * tol / 2), [tm.le(h * h, tol * tol)])
    L2.holds("|w| <= tol^2/2 (-)", tm.le(tm.neg(w), tol * tol / 2), [tm.le(h * h, tol * tol)])
    L2.holds("tol^2/2 <= tol", tm.le(tol * tol / 2, tol))
    hy = [tm.le(w, tol), tm.le(tm.neg(w), tol)]
    L2.holds("|e w| <= tol", tm.le(e * w, tol), hy)
    L2.holds("|e w| <= tol (-)", tm.le(tm.neg(e * w), tol), hy)
    return L.obls + L2.obls


def radius_positive(S):
    """r0 U0 + sigma0 U1 + U2 > 0 for every chi when r0 > 0 and 2 r0 - alpha r0^2 - sigma0^2 > 0"""
    y, al, r0, s0, u, c = (var(n) for n in ("y", "alpha", "r0", "sigma0", "u", "c"))
    L = Lem(S, "radius_positive", {y: "any", al: "any"})
    U = lambda n, z: Uv(n, z, al)
    L.eq("U0(2y)", U(0, 2 * y), U(0, y) ** 2 - al * U(1, y) ** 2)
    L.eq("U1(2y)", U(1, 2 * y), 2 * U(0, y) * U(1, y))
    L.eq("U2(2y)", U(2, 2 * y), 2 * U(1, y) ** 2)
    L.eq("U0^2 + alpha U1^2 = 1", U(0, y) ** 2 + al * U(1, y) ** 2, ONE)
    L2 = Lem(S, "radius_positive", {al: "any", r0: "pos", s0: "small", u: "any", c: "any"},
             [tm.lt(ZERO, r0), tm.lt(ZERO, 2 * r0 - al * r0 * r0 - s0 * s0)])
    r = r0 * (c * c - al * u * u) + s0 * 2 * c * u + 2 * u * u
    pp = 2 * r0 - al * r0 * r0 - s0 * s0
    L2.eq("r0 r = (r0 c + sigma0 u)^2 + p u^2", r0 * r, (r0 * c + s0 * u) ** 2 + pp * u * u)
    w, p_, q_ = var("w"), var("p"), var("q")
    L3 = Lem(S, "radius_positive", {r0: "pos", s0: "any", u: "any", c: "any", p_: "pos"},
             [tm.lt(ZERO, r0), tm.lt(ZERO, p_), tm.not_(tm.and_(tm.eq(u, ZERO), tm.eq(c, ZERO)))])
    L3.holds("(r0 c + sigma0 u)^2 + p u^2 > 0 unless u = c = 0", tm.lt(ZERO, (r0 * c + s0 * u) ** 2 + p_ * u * u))
    L3.holds("r > 0", tm.lt(ZERO, q_), [tm.lt(ZERO, r0 * q_)])
    return L.obls + L2.obls + L3.obls


# ------------------------------------------------------------------------------------------------ C08 / C09
def flow_terms():
    """the two-body flow map written with the contracts' Lagrange coefficients"""
    r0, v0 = syms("r", 3), syms("v", 3)
    mu, chi = var("mu"), var("chi")
    R0 = norm(r0)[()]
    al = 2 / R0 - dot(v0, v0)[()] / mu
    return r0, v0, mu, chi, R0, al


def lagrange(S):
    """identities of the Lagrange coefficients for every chi (R0, sigma0, alpha independent symbols)"""
    R0, s0, al, mu, chi = (var(n) for n in ("R0", "sigma0", "alpha", "mu", "chi"))
    L = Lem(S, "lagrange", {R0: "pos", s0: "any", al: "any", mu: "pos", chi: "any"},
            [tm.lt(ZERO, R0), tm.lt(ZERO, mu), tm.lt(ZERO, K.radius(chi, al, R0, s0))])
    U = lambda n: Uv(n, chi, al)
    sp = lambda n, *z: tm.lift(_o(ct.REGISTRY[n].spec(*[a0(y) for y in z]))[()])
    r = sp("equ_of_orb_uvi", U(0), U(1), U(2), R0, s0)
    F, G = sp("lagrange_F", U(2), R0), sp("lagrange_G", U(1), U(2), s0, R0, mu)
    Ft, Gt = sp("lagrange_Ft", U(1), r, R0, mu), sp("lagrange_Gt", U(2), r)
    L.eq("F Gt - Ft G = 1", F * Gt - Ft * G, ONE)
    # with a = r0.r0 = R0^2, b = r0.v0 = sqrt(mu) sigma0, c = v0.v0 = mu (2/R0 - alpha)
    b, c2 = tm.sqrt(mu) * s0, mu * (2 / R0 - al)
    L.eq("|F r0 + G v0|^2 = r^2", F * F * R0 * R0 + 2 * F * G * b + G * G * c2, r * r)
    L.eq("energy: |Ft r0 + Gt v0|^2 = mu (2/r - alpha)", Ft * Ft * R0 * R0 + 2 * Ft * Gt * b + Gt * Gt * c2, mu * (2 / r - al))
    sig = s0 * U(0) + (1 - al * R0) * U(1)
    L.eq("sigma", (F * Ft * R0 * R0 + (F * Gt + G * Ft) * b + G * Gt * c2) / tm.sqrt(mu), sig)
    L.eq("generalized anomaly from sigma", sig - s0 + al * (R0 * U(1) + s0 * U(2) + U(3)), chi)
    # time derivatives along the root of the universal Kepler equation: dchi/dt = sqrt(mu)/r
    d = lambda t: tm.diff(tm.expand(t), chi) * tm.sqrt(mu) / r
    L.eq("dF/dt = Ft", d(F), Ft)
    L.eq("dG/dt = Gt", d(G), Gt)
    # mu e = (v^2 - mu/r) r - (r.v) v in the basis r0, v0 (angular momentum: F Gt - Ft G = 1)
    k, rv = mu * (2 / r - al) - mu / r, tm.sqrt(mu) * sig
    L.eq("eccentricity vector along r0", k * F - rv * Ft, mu * (2 / R0 - al) - mu / R0)
    L.eq("eccentricity vector along v0", k * G - rv * Gt, tm.neg(b))
    L.eq("dFt/dt = -mu F / r^3", d(Ft), tm.neg(mu * F / r ** 3))
    L.eq("dGt/dt = -mu G / r^3", d(Gt), tm.neg(mu * G / r ** 3))
    z = {chi: ZERO}
    e0 = lambda t: tm.subst(tm.expand(t), z)
    for n, t, w in (("F", F, ONE), ("G", G, ZERO), ("Ft", Ft, ZERO), ("Gt", Gt, ONE), ("r", r, R0)):
        L.eq(f"{n} at the epoch", e0(t), w)
    return L.obls


# ------------------------------------------------------------------------------------------------ C10
class Basis:
    """the span of r0, v0: vectors (a, b) = a r0 + b v0, matrices c I + sum m_ij e_i e_j^T, inner product by the Gram matrix"""

    def __init__(self, gram):
        self.gram = gram

    def outer(self, a, b):
        return BM(ZERO, np.array([[a[i] * b[j] for j in range(2)] for i in range(2)], dtype=object))

    def eye(self):
        return BM(ONE, np.array([[ZERO] * 2] * 2, dtype=object))

    def matmul(self, x, y):
        g, n = self.gram, range(2)
        m = [[tm.add(*[x.m[i, k] * g[k][l] * y.m[l, j] for k in n for l in n]) + x.c * y.m[i, j] + y.c * x.m[i, j]
              for j in n] for i in n]
        return BM(x.c * y.c, np.array(m, dtype=object))


class BM:
    __array__ = None                                # terms defer to BM's operators

    def __init__(self, c, m):
        self.c, self.m = c, m

    def __add__(self, o):
        return BM(self.c + o.c, self.m + o.m)

    def __sub__(self, o):
        return self + (-1) * o

    def __rmul__(self, k):
        return BM(k * self.c, k * self.m)

    def __neg__(self):
        return (-1) * self


def transition(S):
    """the contract of the transition-matrix blocks is the derivative of the flow map (coefficients in the basis r0, v0)"""
    R0, s0, al, mu, chi = (var(n) for n in ("R0", "sigma0", "alpha", "mu", "chi"))
    r_ = K.radius(chi, al, R0, s0)
    L = Lem(S, "transition", {R0: "pos", s0: "any", al: "any", mu: "pos", chi: "any"},
            [tm.lt(ZERO, R0), tm.lt(ZERO, mu), tm.lt(ZERO, r_), tm.not_(tm.eq(al, ZERO))])
    U = lambda n: Uv(n, chi, al)
    sp = lambda n, *z: tm.lift(_o(ct.REGISTRY[n].spec(*[a0(y) for y in z]))[()])
    sm = tm.sqrt(mu)
    r = sp("equ_of_orb_uvi", U(0), U(1), U(2), R0, s0)
    F, G = sp("lagrange_F", U(2), R0), sp("lagrange_G", U(1), U(2), s0, R0, mu)
    Ft, Gt = sp("lagrange_Ft", U(1), r, R0, mu), sp("lagrange_Gt", U(2), r)
    keq = R0 * U(1) + s0 * U(2) + U(3)           # = sqrt(mu) dt
    dt = keq / sm
    C = sp("C_func", chi, U(2), U(4), U(5), dt, mu)
    L.eq("chi = alpha sqrt(mu) dt + sigma - sigma0", sp("generalized_anomaly", al, s0 * U(0) + (1 - al * R0) * U(1), s0, dt, mu), chi)
    b, c2 = sm * s0, mu * (2 / R0 - al)
    A = Basis([[R0 * R0, b], [b, c2]])

    # partial derivatives at fixed chi: by the series, dU_n/dalpha = (n U_{n+2} - chi U_{n+1}) / 2  (checked on the closed forms)
    for n in range(4):
        L.eq(f"dU{n}/dalpha", tm.diff(tm.expand(U(n)), al), (n * U(n + 2) - chi * U(n + 1)) / 2)
    u = [var(f"u{n}") for n in range(6)]

    def d(q, x):
        """total partial of q (over u0..u3, chi, alpha, R0, sigma0): x in {chi, alpha, R0, sigma0}"""
        out = tm.diff(q, x)
        if x is chi:
            out = out + tm.add(*[tm.diff(q, u[n]) * (u[n - 1] if n else tm.neg(al * u[1])) for n in range(4)])
        if x is al:
            out = out + tm.add(*[tm.diff(q, u[n]) * (n * u[n + 2] - chi * u[n + 1]) / 2 for n in range(4)])
        return out
    back = {u[n]: U(n) for n in range(6)}

    def grads(q):
        """coefficients on (r0, v0) of dq/dr0 and dq/dv0, chi following the Kepler equation at fixed time"""
        k = ku
        raw = {x: d(q, x) for x in (chi, al, R0, s0)}
        kr = {x: d(k, x) for x in (chi, al, R0, s0)}
        out = []
        for part in (lambda z: (z[R0] / R0 - 2 * z[al] / R0 ** 3, z[s0] / sm), lambda z: (z[s0] / sm, tm.neg(2 * z[al] / mu))):
            p, kk = part(raw), part(kr)
            out.append([p[i] - raw[chi] * kk[i] / ru for i in range(2)])
        return out
    fwd = {U(n): u[n] for n in range(6)}
    Fu, Gu, Ftu, Gtu, ku, ru, Cu = [tm.subst(tm.lift(t), fwd) for t in (F, G, Ft, Gt, keq, r, C)]
    e1, e2 = np.array([ONE, ZERO], dtype=object), np.array([ZERO, ONE], dtype=object)
    rv, vv = Fu * e1 + Gu * e2, Ftu * e1 + Gtu * e2
    gF, gG, gFt, gGt = grads(Fu), grads(Gu), grads(Ftu), grads(Gtu)
    base = (A, rv, vv, e1, e2)
    blocks = {"dr/dr0": (K.prpr0_form(*base, Fu, Cu, mu, ru, R0), Fu, gF[0], gG[0]),
              "dr/dv0": (K.prpv0_form(*base, Fu, Gu, Cu, mu, ru, R0), Gu, gF[1], gG[1]),
              "dv/dr0": (K.pvpr0_form(*base, Ftu, Cu, mu, ru, R0), Ftu, gFt[0], gGt[0]),
              "dv/dv0": (K.pvpv0_form(*base, Fu, Gtu, Cu, mu, ru, R0), Gtu, gFt[1], gGt[1])}
    bk = lambda t: tm.subst(tm.lift(t), back)
    for n, (m, c, g1, g2) in blocks.items():
        L.eq(f"{n}: identity part", bk(m.c), bk(c))
        for j in range(2):
            L.eq(f"{n}: r0 {'r0' if j == 0 else 'v0'}^T", bk(m.m[0, j]), bk(g1[j]))
            L.eq(f"{n}: v0 {'r0' if j == 0 else 'v0'}^T", bk(m.m[1, j]), bk(g2[j]))
    return L.obls


# ------------------------------------------------------------------------------------------------ C12
def elements_roundtrip(S):
    """coe2rv(rv2coe(r, v)) = (r, v), in steps: (1) any vector splits along h, n = k x h, m = h x n; (2) for e in the plane of the
    orbit the rotated frame of the elements is (e/|e|, h x e/(|h||e|)); (3) cos f, sin f; (4) the state in that frame."""
    obls = []
    # (1)
    h, w = syms("h", 3), syms("w", 3)
    node = lambda h: np.array([-h[1], h[0], ZERO], dtype=object)
    dt = lambda x, y: tm.lift(dot(x, y)[()])
    sq = lambda a: dt(a, a)
    any3 = lambda *vs: {x: "any" for a in vs for x in a}
    L = Lem(S, "elements_split", any3(h, w), [tm.lt(ZERO, h[0] ** 2 + h[1] ** 2)])
    n = node(h); m = cross(h, n)
    L.eq("w = (w.h)h/h^2 + (w.n)n/n^2 + (w.m)m/m^2", w,
         np.array([dt(w, h) * h[i] / sq(h) + dt(w, n) * n[i] / sq(n) + dt(w, m) * m[i] / sq(m) for i in range(3)], dtype=object))
    obls += L.obls
    # (2)
    a, b = var("a"), var("b")
    L = Lem(S, "elements_frame", {**any3(h), a: "any", b: "any"}, [tm.lt(ZERO, h[0] ** 2 + h[1] ** 2), tm.lt(ZERO, a ** 2 + b ** 2)])
    e = np.array([a * n[i] + b * m[i] for i in range(3)], dtype=object)
    incl = ct.REGISTRY["inclination"].spec(h_vec=h)[..., 0]
    raan = ct.REGISTRY["right_ascension"].spec(node_vec=n)[..., 0]
    argp = ct.REGISTRY["argument_of_periapsis"].spec(node_vec=n, e_vec=e)[..., 0]
    P, Q = K.perifocal(incl, raan, argp)
    he = cross(h, e)
    for i in range(3):
        L.eq(f"P[{i}] = e/|e|", P[i], e[i] / tm.sqrt(sq(e)))
        L.eq(f"Q[{i}] = h x e/(|h||e|)", Q[i], tm.lift(he[i]) / (tm.sqrt(sq(h)) * tm.sqrt(sq(e))))
    obls += L.obls
    # (3)
    r, v, mu, al = syms("r", 3), syms("v", 3), var("mu"), var("al")
    h = cross(r, v)
    hr = cross(h, r)
    sg, rho, H = dt(r, v), tm.sqrt(sq(r)), tm.sqrt(sq(h))
    st = [tm.lt(ZERO, mu), tm.lt(ZERO, sq(r)), tm.lt(ZERO, sq(h))]
    L = Lem(S, "elements_anomaly", {**any3(r, v), mu: "pos", al: "any"}, st)
    ev = K.ecc_vec(r, v, a0(mu))
    al0 = sq(h) / (mu * sq(r)) - ONE / rho
    plane = lambda k: np.array([k * r[i] - sg / (mu * sq(r)) * tm.lift(hr[i]) for i in range(3)], dtype=object)
    L.eq("e in the plane of r and h x r", ev, plane(al0))
    L.eq("e.h = 0", dt(ev, h), ZERO)
    e = plane(al)
    eps = tm.sqrt(sq(e))
    gen = [tm.lt(ZERO, sq(e))]
    nu = ct.REGISTRY["true_anomaly"].spec(pos_vec=r, e_vec=e)[..., 0][()]
    nu = tm.ite(tm.lt(sg, ZERO), 2 * PI - nu, nu)
    cf, sf = al * sq(r) / (rho * eps), sg * H / (mu * rho * eps)
    L.eq("cos f", tm.fn("cos", nu), cf, gen)
    L.eq("sin f", tm.fn("sin", nu), sf, gen)
    obls += L.obls
    # (4)
    e = plane(al0)
    eps = tm.sqrt(sq(e))
    at = {al: al0}
    cf, sf = tm.subst([cf, sf], at)
    p = K.rv2coe_spec(r, v, a0(mu))[0][()]
    he = cross(h, e)
    L = Lem(S, "elements_roundtrip", {**any3(r, v), mu: "pos"}, st + [tm.lt(ZERO, sq(e))])
    for i in range(3):
        P, Q = e[i] / eps, tm.lift(he[i]) / (H * eps)
        L.eq(f"position[{i}]", p / (1 + eps * cf) * (P * cf + Q * sf), r[i])
        L.eq(f"velocity[{i}]", tm.sqrt(mu) / tm.sqrt(p) * (Q * (eps + cf) - P * sf), v[i])
    obls += L.obls
    return obls


# ------------------------------------------------------------------------------------------------ C11
def element_state(S):
    """the state built from elements has the angular momentum, eccentricity vector and radial rate of those elements"""
    p, e, i, O, w, f, mu = (var(n) for n in ("p", "e", "incl", "raan", "argp", "f", "mu"))
    sn, cs = (lambda x: tm.fn("sin", x)), (lambda x: tm.fn("cos", x))
    L = Lem(S, "element_state", {p: "pos", e: (0.0, 2.0), i: "angle", O: "angle", w: "angle", f: "angle", mu: "pos"},
            [tm.lt(ZERO, p), tm.lt(ZERO, mu), tm.le(ZERO, e), tm.lt(ZERO, ONE + e * cs(f))])
    r, v = ct.REGISTRY["coe2rv"].spec(p=a0(p), e=a0(e), incl=a0(i), raan=a0(O), argp=a0(w), true_anom=a0(f), mu=a0(mu))
    h = ct.REGISTRY["angular_momentum"].spec(r, v)
    W = [sn(i) * sn(O), tm.neg(sn(i) * cs(O)), cs(i)]
    k = tm.sqrt(mu) * tm.sqrt(p)
    for j in range(3):
        L.eq(f"h[{j}] = sqrt(mu p) W", tm.lift(h[j]), k * W[j])
    rho = p / (ONE + e * cs(f))
    L.eq("|r| = p/(1 + e cos f)", tm.lift(dot(r, r)[()]), rho ** 2)
    L.eq("r.v = r sqrt(mu/p) e sin f", tm.lift(dot(r, v)[()]), rho * tm.sqrt(mu) / tm.sqrt(p) * e * sn(f))
    L.eq("v^2 = mu (2/r - (1 - e^2)/p)", tm.lift(dot(v, v)[()]), mu * (2 / rho - (ONE - e ** 2) / p))
    # e vector with |r| given by the identity above
    Pv, _ = K.perifocal(i, O, w)
    rv, vv = tm.lift(dot(r, v)[()]), tm.lift(dot(v, v)[()])
    for j in range(3):
        L.eq(f"e vector[{j}] = e P", ((vv - mu / rho) * r[j] - rv * v[j]) / mu, e * Pv[j])
    return L.obls


# ------------------------------------------------------------------------------------------------ C13
def sine_sign(x, s):
    """the sign of sin x for x in (-2 pi, 2 pi) (proved in lean/Axioms.lean)"""
    lt, imp = tm.lt, lambda a, b: tm.or_(tm.not_(a), b)
    return [imp(tm.and_(lt(ZERO, x), lt(x, PI)), lt(ZERO, s)), imp(tm.and_(lt(PI, x), lt(x, 2 * PI)), lt(s, ZERO)),
            imp(tm.and_(lt(tm.neg(PI), x), lt(x, ZERO)), lt(s, ZERO)), imp(tm.and_(lt(-2 * PI, x), lt(x, tm.neg(PI))), lt(ZERO, s)),
            imp(tm.or_(tm.eq(x, PI), tm.eq(x, tm.neg(PI))), tm.eq(s, ZERO))]


def transfer_geometry(S):
    """in the plane of motion: r1 at angle 0, periapsis at phi, r2 at theta in the direction of motion (0 < phi, theta < 2 pi)"""
    th, ph, a, b, ep, vr, vt = (var(n) for n in ("theta", "phi", "rho1", "rho2", "e", "vr", "vt"))
    ps = [a, b, ep, vt]
    L = Lem(S, "transfer_geometry", {**{x: "pos" for x in ps}, th: (0.0, 6.28), ph: (0.0, 6.28), vr: "any"}, [tm.lt(ZERO, x) for x in ps])
    sn, cs = (lambda x: tm.fn("sin", x)), (lambda x: tm.fn("cos", x))
    vec = lambda *c: np.array([tm.lift(x) for x in c], dtype=object)
    r1, r2, ev, v1 = vec(a, 0, 0), vec(b * cs(th), b * sn(th), 0), vec(ep * cs(ph), ep * sn(ph), 0), vec(vr, vt, 0)
    D = lambda x, y: tm.lift(dot(x, y)[()])
    s1, s2, s3 = var("s1"), var("s2"), var("s3")
    sub = {s1: sn(th), s2: sn(ph), s3: sn(th - ph)}
    way = a ** 2 * b * vt * s1
    b1, b2 = a ** 2 * b * ep * s1 * s2, a * b ** 2 * ep * s1 * s3
    L.eq("(r1 x v1).(r1 x r2)", D(cross(r1, v1), cross(r1, r2)), tm.subst(way, sub))
    L.eq("(r1 x r2).(r1 x e)", D(cross(r1, r2), cross(r1, ev)), tm.subst(b1, sub))
    L.eq("(r1 x r2).(e x r2)", D(cross(r1, r2), cross(ev, r2)), tm.subst(b2, sub))
    rng = [tm.lt(ZERO, th), tm.lt(th, 2 * PI), tm.lt(ZERO, ph), tm.lt(ph, 2 * PI), tm.not_(tm.eq(th, PI)), tm.not_(tm.eq(ph, th))]
    facts = sine_sign(th, s1) + sine_sign(ph, s2) + sine_sign(th - ph, s3)
    M = Lem(S, "transfer_geometry", {th: (0.0, 6.28), ph: (0.0, 6.28), s1: "any", s2: "any", s3: "any"}, rng + facts)
    pos_ = lambda *f: tm.lt(ZERO, tm.mul(*f))
    M.holds("short way iff theta < pi", tm.iff(pos_(s1), tm.lt(th, PI)))
    M.holds("pass perigee iff phi < theta", tm.iff(tm.iff(tm.and_(pos_(s1, s2), pos_(s1, s3)), pos_(s1)), tm.lt(ph, th)))
    return L.obls + M.obls


# ------------------------------------------------------------------------------------------------ C14
def revolutions(S):
    rp, r1, r2, tof, mu = (var(n) for n in ("rp_min", "r1", "r2", "tof", "mu"))
    L = Lem(S, "revolutions", {rp: "pos", r1: "pos", r2: "pos", tof: (0.0, 60.0), mu: "pos"},
            [tm.lt(ZERO, x) for x in (rp, r1, r2, mu)] + [tm.le(ZERO, tof)])
    far = tm.fn("max", r1, r2)
    a = (far + rp) / 2
    P = tm.lift(_o(ct.REGISTRY["orb_period"].spec(a=a0(a), mu=a0(mu)))[()])
    n = tm.lift(_o(ct.REGISTRY["nmax_by_periapsis"].spec(rp_min=a0(rp), r1=a0(r1), r2=a0(r2), tof=a0(tof), mu=a0(mu)))[()])
    L.eq("whole periods of the limiting orbit", n, tm.fn("floor", tof / P))
    x, k = var("x"), tm.fn("floor", var("x"))
    M = Lem(S, "revolutions", {x: (0.0, 60.0)}, [tm.le(ZERO, x)])
    M.holds("largest whole number that fits", tm.and_(tm.le(k, x), tm.lt(x, k + ONE), tm.le(ZERO, k)))
    return L.obls + M.obls
