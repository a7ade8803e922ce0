"""Sidecar contracts on the real functions of astrodynx (functional postconditions)."""
from fractions import Fraction
import numpy as np
from jv import terms as tm
from jv.terms import PI, ZERO, ONE
from jv.contract import (Contract, Param, C, F, P, sqrt, sin, cos, where, cmp, dot, norm, cross, pos, nonneg, nonzero,
                         allof, _o)

A = "astrodynx"
TB = "astrodynx.twobody"
pi = C(PI)
half = Fraction(1, 2)


def mixes(names, extra=()):
    """scalar, all-batched, and each single argument batched against scalars"""
    out = [{}, {"*": (2,)}]
    if len(names) > 1:
        for n in names:
            out.append({n: (2,)})
        out.append({names[0]: (2, 1), names[1]: (3,)})
    return out + list(extra)


def scal(name, path, params, spec, pre=None, omit=None, batch=None, **k):
    names = [p.name for p in params]
    return Contract(name, path, params, spec, pre, batch=batch or mixes(names), omit=omit, **k)


def V(name, dist="any"):
    return Param(name, dist, core=(3,))


# ---------------------------------------------------------------------------------------------- rotations
def axis_rotation(ax):
    """Rodrigues: R = c I + s [k]x + (1-c) k k^T"""
    k = [1 if i == ax else 0 for i in range(3)]
    K = [[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]]

    def spec(angle):
        c, s = cos(angle), sin(angle)
        out = np.empty(angle.shape + (3, 3), dtype=object)
        for b in np.ndindex(*angle.shape):
            for i in range(3):
                for j in range(3):
                    out[b + (i, j)] = tm.add(c[b] * (1 if i == j else 0), s[b] * K[i][j], (1 - c[b]) * (k[i] * k[j]))
        return out
    return spec


for _n, _ax in (("rotmat3dx", 0), ("rotmat3dy", 1), ("rotmat3dz", 2)):
    Contract(_n, f"{A}.utils:{_n}", [Param("angle", "angle")], axis_rotation(_ax),
             batch=[{}, {"*": (2,)}, {"*": (2, 2)}])


# ---------------------------------------------------------------------------------------------- gravity
def legendre(n, u):
    if n == 0:
        return ONE
    p0, p1 = ONE, u
    for k in range(1, n):
        p0, p1 = p1, ((2 * k + 1) * u * p1 - k * p0) / (k + 1)
    return p1


def zonal_acc(n):
    """acceleration = -grad of mu/r * J_n (R/r)^n P_n(z/r)   (n = 0: -grad of -mu/r)"""
    def spec(t, x, mu, J=None, R_eq=None):
        X = [tm.var(f"gx{i}") for i in range(3)]
        r = tm.sqrt(tm.add(*[c ** 2 for c in X]))
        m = mu[()]
        if n == 0:
            pot = -m / r
        else:
            pot = m / r * J[()] * (R_eq[()] / r) ** n * legendre(n, X[2] / r)
        out = np.empty(3, dtype=object)
        for i in range(3):
            out[i] = tm.subst(tm.neg(tm.diff(pot, X[i])), dict(zip(X, x[:3])))
        return out
    return spec


def _r3(x):
    return [tm.lt(ZERO, tm.add(x[0] ** 2, x[1] ** 2, x[2] ** 2))]


def frame(*names):
    """entries of the parameter set the function must not depend on: symbolic, ignored by the postcondition"""
    return [Param("o_" + n, "small", default=0) for n in names]


def entries(v, *used):
    """the parameter set: the entries used, then every other entry given"""
    d = {k: v[p] for k, p in used}
    d.update({k[2:]: x for k, x in v.items() if k.startswith("o_")})
    return d


def grav_call(jname):
    def call(f, v):
        if "mu" not in v:
            return f(v["t"], v["x"])
        used = [("mu", "mu")] + ([(jname, "J"), ("R_eq", "R_eq")] if jname else [])
        return f(v["t"], v["x"], entries(v, *used))
    return call


# states that carry more than position and velocity (mass, variational equations, a second body)
STATES = [("x", (7,)), ("x", (12,)), ("x", (42,))]


def grav(name, n):
    jname = f"J{n}" if n else None
    oth = frame(*[k for k in ("rmin", "J2", "J3", "J4", "R_eq") if k != jname and not (n and k == "R_eq")])
    own = [Param("t"), Param("x", core=(6,)), Param("mu", "pos", default=1)] + \
        ([Param("J", "small", default=0), Param("R_eq", "pos", default=1)] if n else [])
    o = {p.name for p in oth}
    Contract(name, f"{A}.gravity:{name}", own + oth,
             lambda t, x, mu, J=None, R_eq=None, **_: zonal_acc(n)(t, x, mu, J, R_eq), pre=lambda t, x, **_: _r3(x),
             batch=[{}], omit=[o, o | {p.name for p in own[2:]}], call=grav_call(jname), longer=STATES)


grav("point_mass_grav", 0)
for _k in (2, 3, 4):
    grav(f"j{_k}_acc", _k)


# ---------------------------------------------------------------------------------------------- events
def event_call(f, v):
    if "rmin" not in v:
        return f(v["t"], v["x"])
    if "o_mu" in v:         # as the integrator calls it: with further keyword arguments
        return f(v["t"], v["x"], entries(v, ("rmin", "rmin")), y0=v["o_mu"], t0=v["o_J2"], terms=None, solver=None)
    return f(v["t"], v["x"], entries(v, ("rmin", "rmin")))


_oth = frame("mu", "R_eq", "J2", "J3", "J4")
_on = {p.name for p in _oth}
Contract("radius_islow", f"{A}.events:radius_islow",
         [Param("t"), Param("x", core=(6,)), Param("rmin", "pos", default=0)] + _oth,
         lambda t, x, rmin, **_: _o(norm(x[:3]) - rmin), batch=[{}], omit=[_on, _on | {"rmin"}], call=event_call, longer=STATES)


# ---------------------------------------------------------------------------------------------- orbital integrals
scal("orb_period", f"{A}:orb_period", [Param("a", "pos"), Param("mu", "pos", default=1)],
     lambda a, mu: 2 * pi * a * sqrt(a) / sqrt(mu), lambda a, mu: pos(a) + pos(mu), omit=[{"mu"}])
scal("a_from_period", f"{A}:a_from_period", [Param("orbperiod", "pos"), Param("mu", "pos", default=1)],
     lambda orbperiod, mu: P(mu * P(orbperiod / (2 * pi), 2), Fraction(1, 3)),
     lambda orbperiod, mu: pos(orbperiod) + pos(mu), omit=[{"mu"}])
Contract("angular_momentum", f"{A}:angular_momentum", [V("pos_vec"), V("vel_vec")],
         lambda pos_vec, vel_vec: cross(pos_vec, vel_vec),
         batch=[{}, {"*": (2,)}, {"pos_vec": (2,)}, {"vel_vec": (2,)}])
scal("semimajor_axis", f"{A}:semimajor_axis",
     [Param("r_mag", "pos"), Param("v_mag", "pos"), Param("mu", "pos", default=1)],
     lambda r_mag, v_mag, mu: r_mag * mu / (2 * mu - r_mag * P(v_mag, 2)),
     lambda r_mag, v_mag, mu: pos(r_mag) + pos(mu) + nonzero(2 * mu - r_mag * P(v_mag, 2)), omit=[{"mu"}])


def vecmu(extra=()):
    return [{}, {"pos_vec": (2,), "vel_vec": (2,)}, {"pos_vec": (2,), "vel_vec": (2,), "mu": (2, 1)},
            {"pos_vec": (2,)}, {"vel_vec": (2,)}] + list(extra)


def ecc_vec(r, v, mu):
    r, v, mu = _o(r), _o(v), _o(mu)
    rm = norm(r)[..., None]
    return ((dot(v, v)[..., None] - mu / rm) * r - dot(r, v)[..., None] * v) / mu


def rpos(r):
    return pos(dot(r, r))


Contract("eccentricity_vector", f"{A}:eccentricity_vector",
         [V("pos_vec"), V("vel_vec"), Param("mu", "pos", default=1)],
         lambda pos_vec, vel_vec, mu: ecc_vec(pos_vec, vel_vec, mu),
         lambda pos_vec, vel_vec, mu: pos(mu) + rpos(pos_vec), batch=vecmu(), omit=[{"mu"}])
scal("semiparameter", f"{A}:semiparameter", [Param("h_mag", "pos"), Param("mu", "pos", default=1)],
     lambda h_mag, mu: h_mag * h_mag / mu, lambda h_mag, mu: pos(mu), omit=[{"mu"}])
scal("mean_motion", f"{A}:mean_motion", [Param("P", "pos")], lambda P: 2 * pi / P, lambda P: pos(P))
scal("equ_of_orbit", f"{A}:equ_of_orbit", [Param("p", "pos"), Param("e", "ecc"), Param("f", "angle")],
     lambda p, e, f: p / (1 + e * cos(f)), lambda p, e, f: nonneg(e) + pos(p) + pos(1 + e * cos(f)))
Contract("equ_of_orb_uvi", f"{A}:equ_of_orb_uvi",
         [Param("U0"), Param("U1"), Param("U2"), Param("r0", "pos"), Param("sigma0")],
         lambda U0, U1, U2, r0, sigma0: r0 * U0 + sigma0 * U1 + U2,
         batch=[{}, {"*": (2,)}, {"U0": (2,), "U1": (2,), "U2": (2,)}, {"r0": (2,), "sigma0": (2,)}])
scal("radius_periapsis", f"{A}:radius_periapsis", [Param("p", "pos"), Param("e", (0.0, 3.0))],
     lambda p, e: p / (1 + e), lambda p, e: pos(p) + nonneg(e))
scal("radius_apoapsis", f"{A}:radius_apoapsis", [Param("p", "pos"), Param("e", (0.0, 3.0))],
     lambda p, e: p / (1 - e), lambda p, e: pos(p) + nonneg(e) + nonzero(1 - e))
scal("semipara_from_ae", f"{A}:semipara_from_ae", [Param("a"), Param("e", (0.0, 3.0))],
     lambda a, e: a * (1 - e) * (1 + e), lambda a, e: nonneg(e))
scal("a_from_pe", f"{A}:a_from_pe", [Param("p", "pos"), Param("e", (0.0, 3.0))],
     lambda p, e: p / ((1 - e) * (1 + e)), lambda p, e: pos(p) + nonneg(e) + nonzero(1 - e))


# ---------------------------------------------------------------------------------------------- orbital elements
def col(a):
    return _o(a)[..., None]


def wrap2pi(a):
    return where(cmp("lt", a, ZERO), a + 2 * pi, a)


Contract("inclination", f"{A}:inclination", [V("h_vec")],
         lambda h_vec: col(F("atan2", sqrt(P(h_vec[..., 0], 2) + P(h_vec[..., 1], 2)), h_vec[..., 2])),
         lambda h_vec: rpos(h_vec), batch=[{}, {"*": (2,)}])
Contract("true_anomaly", f"{A}:true_anomaly", [V("pos_vec"), V("e_vec")],
         lambda pos_vec, e_vec: col(F("atan2", norm(cross(pos_vec, e_vec)), dot(pos_vec, e_vec))),
         lambda pos_vec, e_vec: rpos(pos_vec) + rpos(e_vec), batch=[{}, {"*": (2,)}])
Contract("right_ascension", f"{A}:right_ascension", [V("node_vec")],
         lambda node_vec: col(wrap2pi(F("atan2", node_vec[..., 1], node_vec[..., 0]))),
         lambda node_vec: pos(P(node_vec[..., 0], 2) + P(node_vec[..., 1], 2)), batch=[{}, {"*": (2,)}])


def argp_spec(n, e):
    ang = F("atan2", norm(cross(n, e)), dot(n, e))
    return where(cmp("lt", _o(e)[..., 2], ZERO), 2 * pi - ang, ang)


Contract("argument_of_periapsis", f"{A}:argument_of_periapsis", [V("node_vec"), V("e_vec")],
         lambda node_vec, e_vec: col(argp_spec(node_vec, e_vec)),
         lambda node_vec, e_vec: rpos(node_vec) + rpos(e_vec), batch=[{}, {"*": (2,)}])


def rv2coe_spec(pos_vec, vel_vec, mu):
    h = cross(pos_vec, vel_vec)
    e = ecc_vec(pos_vec, vel_vec, mu if _o(mu).ndim == 0 else mu)
    mu_ = _o(mu) if _o(mu).ndim == 0 else _o(mu)[..., 0]
    n = np.stack([-h[..., 1], h[..., 0], 0 * h[..., 0]], axis=-1)
    p = dot(h, h) / mu_
    incl = F("atan2", sqrt(P(h[..., 0], 2) + P(h[..., 1], 2)), h[..., 2])
    raan = wrap2pi(F("atan2", h[..., 0], -h[..., 1]))
    nu = F("atan2", norm(cross(pos_vec, e)), dot(pos_vec, e))
    nu = where(cmp("lt", dot(pos_vec, vel_vec), ZERO), 2 * pi - nu, nu)
    return (_o(p), _o(norm(e)), _o(incl), _o(raan), _o(argp_spec(n, e)), _o(nu))


def rv2coe_pre(pos_vec, vel_vec, mu):
    h = cross(pos_vec, vel_vec)
    return pos(mu) + rpos(pos_vec) + pos(P(h[..., 0], 2) + P(h[..., 1], 2)) + rpos(ecc_vec(pos_vec, vel_vec, mu))


Contract("rv2coe", f"{A}:rv2coe", [V("pos_vec"), V("vel_vec"), Param("mu", "pos", default=1)], rv2coe_spec, rv2coe_pre,
         batch=[{}, {"pos_vec": (2,), "vel_vec": (2,)}], omit=[{"mu"}], tol=1e-8)


def perifocal(incl, raan, argp):
    """P (towards periapsis) and Q (90 deg ahead in the plane) unit vectors"""
    ci, si, cO, sO, cw, sw = cos(incl), sin(incl), cos(raan), sin(raan), cos(argp), sin(argp)
    Pv = [cO * cw - sO * sw * ci, sO * cw + cO * sw * ci, sw * si]
    Qv = [-cO * sw - sO * cw * ci, -sO * sw + cO * cw * ci, cw * si]
    return Pv, Qv


def coe2rv_spec(p, e, incl, raan, argp, true_anom, mu):
    Pv, Qv = perifocal(incl, raan, argp)
    r = p / (1 + e * cos(true_anom))
    k = sqrt(mu) / sqrt(p)
    rr, vv = [], []
    for i in range(3):
        rr.append(_o(r * (Pv[i] * cos(true_anom) + Qv[i] * sin(true_anom))))
        vv.append(_o(k * (Qv[i] * (e + cos(true_anom)) - Pv[i] * sin(true_anom))))
    sh = np.broadcast_shapes(*[x.shape for x in rr + vv])
    bc = lambda l: np.stack([np.broadcast_to(x, sh) for x in l], axis=-1)
    return bc(rr), bc(vv)


COE = ["p", "e", "incl", "raan", "argp", "true_anom"]
Contract("coe2rv", f"{A}:coe2rv",
         [Param("p", "pos"), Param("e", (0.0, 2.0)), Param("incl", "angle"), Param("raan", "angle"), Param("argp", "angle"),
          Param("true_anom", "angle"), Param("mu", "pos", default=1)],
         coe2rv_spec,
         lambda p, e, incl, raan, argp, true_anom, mu: pos(p) + pos(mu) + nonneg(e) + pos(1 + e * cos(true_anom)),
         batch=[{}, {n: (2,) for n in COE}, {"*": (2,)}, {"true_anom": (2,)}, {"e": (2,)}, {"p": (2,)}, {"raan": (2,)}],
         omit=[{"mu"}])

# ---------------------------------------------------------------------------------------------- Kepler equations
scal("kepler_equ_elps", f"{A}:kepler_equ_elps", [Param("E", "angle"), Param("e", "ecc"), Param("M", "angle", default=0)],
     lambda E, e, M: E - e * sin(E) - M, omit=[{"M"}])
scal("dE", f"{A}:dE", [Param("E", "angle"), Param("e", "ecc")], lambda E, e: 1 - e * cos(E))
scal("kepler_equ_hypb", f"{A}:kepler_equ_hypb", [Param("H"), Param("e", "ecchyp"), Param("N", default=0)],
     lambda H, e, N: e * F("sinh", H) - H - N, omit=[{"N"}])
scal("dH", f"{A}:dH", [Param("H"), Param("e", "ecchyp")], lambda H, e: e * F("cosh", H) - 1)
scal("mean_anomaly_elps", f"{A}:mean_anomaly_elps", [Param("a", "pos"), Param("deltat"), Param("mu", "pos", default=1)],
     lambda a, deltat, mu: sqrt(mu) / (a * sqrt(a)) * deltat, lambda a, deltat, mu: pos(a) + pos(mu), omit=[{"mu"}])
scal("mean_anomaly_hypb", f"{A}:mean_anomaly_hypb",
     [Param("a", lambda g, n: -np.exp(g.uniform(-1, 1, n))), Param("deltat"), Param("mu", "pos", default=1)],
     lambda a, deltat, mu: sqrt(mu) / (-a * sqrt(-a)) * deltat, lambda a, deltat, mu: pos(-a) + pos(mu), omit=[{"mu"}])
scal("generalized_anomaly", f"{A}:generalized_anomaly",
     [Param("alpha"), Param("sigma"), Param("sigma0"), Param("deltat", default=0), Param("mu", "pos", default=1)],
     lambda alpha, sigma, sigma0, deltat, mu: alpha * sqrt(mu) * deltat + sigma - sigma0,
     lambda alpha, sigma, sigma0, deltat, mu: pos(mu), omit=[{"mu"}, {"deltat", "mu"}],
     batch=[{}, {"*": (2,)}, {"sigma": (1,), "sigma0": (1,)}, {"deltat": (2,)}])


# ---------------------------------------------------------------------------------------------- universal functions
def U(n, chi, alpha):
    """U_n(chi; alpha) = chi^n sum_k (-alpha chi^2)^k / (n+2k)!  in closed form"""
    out = np.empty(np.broadcast_shapes(_o(chi).shape, _o(alpha).shape), dtype=object)
    cb, ab = np.broadcast_arrays(_o(chi), _o(alpha))
    for i in np.ndindex(*out.shape):
        out[i] = tm.fn(f"U{n}", cb[i], ab[i])
    return out


def Udef(n, chi, alpha):
    cb, ab = np.broadcast_arrays(_o(chi), _o(alpha))
    out = np.empty(cb.shape, dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = U1(n, cb[i], ab[i])
    return out


def U1(n, chi, alpha):
    s, m = tm.sqrt(alpha), tm.sqrt(tm.neg(alpha))

    def rec(u, k):
        # U_{k+2} = (chi^k/k! - U_k)/alpha
        import math
        while k < n:
            u = (chi ** k / math.factorial(k) - u) / alpha
            k += 2
        return u
    import math
    k0 = n % 2
    ell = tm.fn("cos", s * chi) if k0 == 0 else tm.fn("sin", s * chi) / s
    hyp = tm.fn("cosh", m * chi) if k0 == 0 else tm.fn("sinh", m * chi) / m
    par = tm.power(chi, n) / math.factorial(n)
    return tm.ite(tm.lt(ZERO, alpha), rec(ell, k0), tm.ite(tm.lt(alpha, ZERO), rec(hyp, k0), par))


for _n in range(8):
    tm.DEFS[f"U{_n}"] = (lambda n: lambda chi, alpha: U1(n, chi, alpha))(_n)
for _n in range(6):
    Contract(f"ufunc{_n}", f"{TB}:ufunc{_n}", [Param("chi"), Param("alpha")],
             (lambda n: lambda chi, alpha: Udef(n, chi, alpha))(_n), batch=[{}, {"chi": (2,)}, {"chi": (2, 2)}], tol=1e-7,
             opaque=f"U{_n}")

Contract("sigma_fn", f"{TB}:sigma_fn", [V("pos_vec"), V("vel_vec"), Param("mu", "pos", default=1)],
         lambda pos_vec, vel_vec, mu: col(dot(pos_vec, vel_vec)) / sqrt(mu),
         lambda pos_vec, vel_vec, mu: pos(mu), batch=vecmu(), omit=[{"mu"}])
Contract("kepler_equ_uni", f"{A}:kepler_equ_uni",
         [Param("chi"), Param("alpha", default=1), Param("r0", "pos", default=1), Param("sigma0", default=0),
          Param("deltat", default=0), Param("mu", "pos", default=1)],
         lambda chi, alpha, r0, sigma0, deltat, mu:
         r0 * U(1, chi, alpha) + sigma0 * U(2, chi, alpha) + U(3, chi, alpha) - sqrt(mu) * deltat,
         lambda chi, alpha, r0, sigma0, deltat, mu: pos(mu),
         batch=[{}, {"chi": (2,)}, {"chi": (2,), "deltat": (2,)}, {"deltat": (2,)},
                {k: (2,) for k in ("chi", "r0", "sigma0", "deltat", "mu")}],
         omit=[{"mu"}, {"deltat", "mu"}, {"sigma0", "deltat", "mu"}, {"alpha", "r0", "sigma0", "deltat", "mu"}], tol=1e-7)

# ---------------------------------------------------------------------------------------------- Lagrange coefficients
scal("lagrange_F", f"{TB}:lagrange_F", [Param("U2"), Param("r0_mag", "pos", default=1)],
     lambda U2, r0_mag: 1 - U2 / r0_mag, lambda U2, r0_mag: pos(r0_mag), omit=[{"r0_mag"}])
scal("lagrange_G", f"{TB}:lagrange_G",
     [Param("U1"), Param("U2"), Param("sigma0", default=0), Param("r0_mag", "pos", default=1), Param("mu", "pos", default=1)],
     lambda U1, U2, sigma0, r0_mag, mu: (r0_mag * U1 + sigma0 * U2) / sqrt(mu),
     lambda U1, U2, sigma0, r0_mag, mu: pos(mu), omit=[{"mu"}, {"sigma0", "r0_mag", "mu"}],
     batch=[{}, {"*": (2,)}, {"U1": (2,), "U2": (2,)}, {"sigma0": (1,)}, {"U1": (2,), "U2": (2,), "sigma0": (1,)}])
scal("lagrange_Ft", f"{TB}:lagrange_Ft",
     [Param("U1"), Param("r_mag", "pos"), Param("r0_mag", "pos", default=1), Param("mu", "pos", default=1)],
     lambda U1, r_mag, r0_mag, mu: -sqrt(mu) * U1 / (r_mag * r0_mag),
     lambda U1, r_mag, r0_mag, mu: pos(r_mag) + pos(r0_mag) + pos(mu), omit=[{"mu"}, {"r0_mag", "mu"}])
scal("lagrange_Gt", f"{TB}:lagrange_Gt", [Param("U2"), Param("r_mag", "pos")],
     lambda U2, r_mag: 1 - U2 / r_mag, lambda U2, r_mag: pos(r_mag))


# ---------------------------------------------------------------------------------------------- state transition matrix
def eye():
    return np.array([[ONE if i == j else ZERO for j in range(3)] for i in range(3)], dtype=object)


def outer(a, b):
    return np.array([[a[i] * b[j] for j in range(3)] for i in range(3)], dtype=object)


def s0(x):
    """scalar or (1,)-shaped argument -> element"""
    return _o(x).reshape(())[()] if _o(x).size == 1 else x


scal("C_func", f"{TB}:C_func",
     [Param("chi"), Param("U2"), Param("U4"), Param("U5"), Param("deltat", default=Fraction(157, 50)),
      Param("mu", "pos", default=1)],
     lambda chi, U2, U4, U5, deltat, mu: (3 * U5 - chi * U4) / sqrt(mu) - deltat * U2,
     lambda chi, U2, U4, U5, deltat, mu: pos(mu), batch=[{}, {"*": (2,)}, {n: (1,) for n in ("chi", "U2", "U4", "U5")}],
     omit=[{"mu"}, {"deltat", "mu"}])


class Components:
    """3-vectors as component arrays, matrices as 3x3 arrays"""
    outer = staticmethod(outer)
    eye = staticmethod(eye)

    @staticmethod
    def matmul(a, b):
        return np.array([[tm.add(*[a[i, k] * b[k, j] for k in range(3)]) for j in range(3)] for i in range(3)], dtype=object)


# the blocks over any algebra of vectors (component arrays in the contracts, the basis r0, v0 in lemma transition)
def prpr0_form(A_, r, v, r0, v0, F, C, mu, R, R0):
    dv = v - v0
    return (R / mu) * A_.outer(dv, dv) + (1 / R0 ** 3) * (R0 * (1 - F) * A_.outer(r, r0) + C * A_.outer(v, r0)) + F * A_.eye()


def prpv0_form(A_, r, v, r0, v0, F, G, C, mu, R, R0):
    dv, dr = v - v0, r - r0
    return (R0 / mu) * (1 - F) * (A_.outer(dr, v0) - A_.outer(dv, r0)) + (C / mu) * A_.outer(v, v0) + G * A_.eye()


def pvpr0_form(A_, r, v, r0, v0, Ft, C, mu, R, R0):
    dv = v - v0
    prod = A_.matmul(A_.outer(r, v) - A_.outer(v, r), A_.outer(r, dv))
    return (-(1 / R0 ** 2) * A_.outer(dv, r0) - (1 / R ** 2) * A_.outer(r, dv)
            + Ft * (A_.eye() - (1 / R ** 2) * A_.outer(r, r) + (1 / (mu * R)) * prod)
            - (mu * C / (R ** 3 * R0 ** 3)) * A_.outer(r, r0))


def pvpv0_form(A_, r, v, r0, v0, F, Gt, C, mu, R, R0):
    dv = v - v0
    return ((R0 / mu) * A_.outer(dv, dv) + (1 / R ** 3) * (R0 * (1 - F) * A_.outer(r, r0) - C * A_.outer(r, v0))
            + Gt * A_.eye())


def block(form, *scalars):
    def spec(r_vec, v_vec, r0_vec, v0_vec, *a, **k):
        k.update(zip(scalars + ("mu",), a))
        return form(Components, r_vec, v_vec, r0_vec, v0_vec, *[s0(k[n]) for n in scalars + ("mu",)],
                    norm(r_vec)[()], norm(r0_vec)[()])
    return spec


prpr0_spec = block(prpr0_form, "F", "C")
prpv0_spec = block(prpv0_form, "F", "G", "C")
pvpr0_spec = block(pvpr0_form, "Ft", "C")
pvpv0_spec = block(pvpv0_form, "F", "Gt", "C")


_4 = [V("r_vec"), V("v_vec"), V("r0_vec"), V("v0_vec")]
_mu = Param("mu", "pos", default=1)
Contract("prpr0", f"{TB}:prpr0", _4 + [Param("F"), Param("C"), _mu], prpr0_spec,
         lambda r_vec, v_vec, r0_vec, v0_vec, F, C, mu: pos(mu) + rpos(r0_vec), batch=[{}, {"F": (), "C": (1,)}], omit=[{"mu"}])
Contract("prpv0", f"{TB}:prpv0", _4 + [Param("F"), Param("G"), Param("C"), _mu], prpv0_spec,
         lambda r_vec, v_vec, r0_vec, v0_vec, F, G, C, mu: pos(mu), batch=[{}, {"F": (1,), "G": (1,), "C": (1,)}], omit=[{"mu"}])
Contract("pvpr0", f"{TB}:pvpr0", _4 + [Param("Ft"), Param("C"), _mu], pvpr0_spec,
         lambda r_vec, v_vec, r0_vec, v0_vec, Ft, C, mu: pos(mu) + rpos(r0_vec) + rpos(r_vec), batch=[{}, {"Ft": (1,), "C": (1,)}],
         omit=[{"mu"}])
Contract("pvpv0", f"{TB}:pvpv0", _4 + [Param("F"), Param("Gt"), Param("C"), _mu], pvpv0_spec,
         lambda r_vec, v_vec, r0_vec, v0_vec, F, Gt, C, mu: pos(mu) + rpos(r_vec), batch=[{}, {"F": (1,), "Gt": (1,), "C": (1,)}],
         omit=[{"mu"}])


def dxdx0_parts(r_vec, v_vec, r0_vec, v0_vec, deltat, mu, alpha=None):
    R, R0 = norm(r_vec), norm(r0_vec)
    sm = sqrt(mu)
    if alpha is None:
        alpha = 1 / (R0 * mu / (2 * mu - R0 * dot(v0_vec, v0_vec)))
    sig, sig0 = dot(r_vec, v_vec) / sm, dot(r0_vec, v0_vec) / sm
    chi = alpha * sm * deltat + sig - sig0
    Cc = (3 * U(5, chi, alpha) - chi * U(4, chi, alpha)) / sm - deltat * U(2, chi, alpha)
    Ff = 1 - U(2, chi, alpha) / R0
    Gg = (R0 * U(1, chi, alpha) + sig0 * U(2, chi, alpha)) / sm
    Fft = -sm * U(1, chi, alpha) / (R * R0)
    Ggt = 1 - U(2, chi, alpha) / R
    return Cc, Ff, Gg, Fft, Ggt


def dxdx0_spec(r_vec, v_vec, r0_vec, v0_vec, deltat, mu):
    Cc, Ff, Gg, Fft, Ggt = dxdx0_parts(r_vec, v_vec, r0_vec, v0_vec, deltat, mu)
    a = (r_vec, v_vec, r0_vec, v0_vec)
    return np.block([[prpr0_spec(*a, Ff, Cc, mu), prpv0_spec(*a, Ff, Gg, Cc, mu)],
                     [pvpr0_spec(*a, Fft, Cc, mu), pvpv0_spec(*a, Ff, Ggt, Cc, mu)]])


Contract("dxdx0", f"{TB}:dxdx0", _4 + [Param("deltat", default=Fraction(157, 50)), _mu], dxdx0_spec,
         lambda r_vec, v_vec, r0_vec, v0_vec, deltat, mu:
         pos(mu) + rpos(r0_vec) + rpos(r_vec) + nonzero(2 * mu - norm(r0_vec) * dot(v0_vec, v0_vec)),
         batch=[{}], omit=[{"mu"}, {"deltat", "mu"}], tol=1e-6)


# ---------------------------------------------------------------------------------------------- transfer geometry
scal("nmax_by_periapsis", f"{TB}:nmax_by_periapsis",
     [Param("rp_min", "pos", default=Fraction(97, 100)), Param("r1", "pos", default=1), Param("r2", "pos", default=1),
      Param("tof", (0.0, 60.0), default=PI), Param("mu", "pos", default=1)],
     # longest time per revolution admissible: semi-major axis at least (r_far + rp_min)/2
     lambda rp_min, r1, r2, tof, mu: F("floor", tof / (2 * pi * P((F("max", r1, r2) + rp_min) / 2, Fraction(3, 2)) / sqrt(mu))),
     lambda rp_min, r1, r2, tof, mu: pos(rp_min) + pos(r1) + pos(r2) + nonneg(tof) + pos(mu),
     batch=[{}, {"*": (2,)}, {"tof": (2,)}, {"r1": (2,)}], omit=[{"mu"}, {"tof", "mu"}, {"rp_min", "r1", "r2", "tof", "mu"}])


def short_way(r1, v1, r2):
    return cmp("gt", dot(cross(r1, v1), cross(r1, r2)), ZERO)


Contract("is_short_way", f"{TB}:is_short_way", [V("r1"), V("v1"), V("r2")],
         lambda r1, v1, r2: short_way(r1, v1, r2), batch=[{}])


def pass_perigee_spec(r1, v1, r2, mu):
    """the periapsis direction lies strictly inside the angle swept from r1 to r2 in the direction of motion"""
    e = ecc_vec(r1, v1, mu)
    n = cross(r1, r2)
    inside = cmp("and", cmp("gt", dot(n, cross(r1, e)), ZERO), cmp("gt", dot(n, cross(e, r2)), ZERO))
    sw = short_way(r1, v1, r2)
    return _o(tm.iff(inside[()], sw[()]))


Contract("pass_perigee", f"{TB}:pass_perigee", [V("r1"), V("v1"), V("r2"), _mu], pass_perigee_spec,
         lambda r1, v1, r2, mu: pos(mu) + rpos(r1), batch=[{}], omit=[{"mu"}])


def rp_low_spec(rmin, r, v, mu):
    h = cross(r, v)
    p = dot(h, h) / mu
    return cmp("lt", p / (1 + norm(ecc_vec(r, v, mu))), rmin)


Contract("rp_islower_rmin", f"{TB}:rp_islower_rmin", [Param("rmin", "pos"), V("r"), V("v"), _mu], rp_low_spec,
         lambda rmin, r, v, mu: pos(mu) + rpos(r), batch=[{}], omit=[{"mu"}])


# ---------------------------------------------------------------------------------------------- Kepler solvers
from jv.loops import SolverContract   # noqa: E402

_tol = Param("tol", (1e-4, 0.1), default=Fraction(1, 10 ** 6))
_sin = lambda x: tm.fn("sin", x)
_cos = lambda x: tm.fn("cos", x)


def _tolpre(tol, max_iter):
    return pos(tol) + [tm.le(t, ONE) for t in _o(tol).ravel()] + [tm.le(ONE, m) for m in _o(max_iter).ravel()]


SolverContract(
    "solve_kepler_elps", f"{A}:solve_kepler_elps",
    [Param("M", "angle"), Param("e", "ecc"), _tol, Param("max_iter", default=20)],
    f=lambda x, M, e, tol, max_iter: x - e * _sin(x) - M,
    slope=lambda x, M, e, tol, max_iter: 1 - e * _cos(x),
    start=lambda M, e, tol, max_iter: M + e * _sin(M) + e * e * _sin(2 * M) / 2,
    pre=lambda M, e, tol, max_iter: nonneg(e) + pos(1 - e) + _tolpre(tol, max_iter),
    symbol="SOL_elps", omit=[{"tol", "max_iter"}, {"max_iter"}], budget=(Fraction(1, 10 ** 6), 20), steplemma=True)

SolverContract(
    "solve_kepler_hypb", f"{A}:solve_kepler_hypb",
    [Param("N"), Param("e", "ecchyp"), _tol, Param("max_iter", default=50)],
    f=lambda x, N, e, tol, max_iter: e * tm.fn("sinh", x) - x - N,
    slope=lambda x, N, e, tol, max_iter: e * tm.fn("cosh", x) - 1,
    start=lambda N, e, tol, max_iter: tm.fn("asinh", 2 * N / e),
    pre=lambda N, e, tol, max_iter: pos(e - 1) + _tolpre(tol, max_iter),
    symbol="SOL_hypb", omit=[{"tol", "max_iter"}, {"max_iter"}], budget=(Fraction(1, 10 ** 6), 50))


def radius(x, alpha, r0, sigma0):
    return r0 * tm.fn("U0", x, alpha) + sigma0 * tm.fn("U1", x, alpha) + tm.fn("U2", x, alpha)


def uni_start(dt, alpha, r0, sigma0, mu):
    b = tm.sqrt(tm.neg(alpha))
    hyp = tm.fn("asinh", tm.sqrt(mu) * dt * b ** 3 / (1 + tm.fn("sign", dt) * sigma0 * b + r0 * b * b)) / b
    return tm.ite(tm.lt(alpha, ZERO), hyp, tm.sqrt(mu) * alpha * dt)


def uni_samples(env, rng, n, special):
    """physically consistent r0, sigma0, alpha: 2 r0 - alpha r0^2 - sigma0^2 > 0"""
    al, r0, s0_ = tm.var("alpha"), tm.var("r0"), tm.var("sigma0")
    if all(v in env for v in (al, r0, s0_)):
        if not special:
            env[al] = np.where(rng.random(n) < 0.1, 0.0, env[al])
        lim = 2 * env[r0] - env[al] * env[r0] ** 2
        env[s0_] = rng.uniform(-0.95, 0.95, n) * np.sqrt(np.maximum(lim, 0))


_uni = SolverContract(
    "solve_kepler_uni", f"{A}:solve_kepler_uni",
    [Param("deltat"), Param("alpha", (-1.0, 1.0)), Param("r0", "pos"), Param("sigma0"), Param("mu", "pos", default=1), _tol,
     Param("max_iter", default=50)],
    f=lambda x, deltat, alpha, r0, sigma0, mu, tol, max_iter:
    r0 * tm.fn("U1", x, alpha) + sigma0 * tm.fn("U2", x, alpha) + tm.fn("U3", x, alpha) - tm.sqrt(mu) * deltat,
    slope=lambda x, deltat, alpha, r0, sigma0, mu, tol, max_iter: radius(x, alpha, r0, sigma0),
    start=lambda deltat, alpha, r0, sigma0, mu, tol, max_iter: uni_start(deltat, alpha, r0, sigma0, mu),
    pre=lambda deltat, alpha, r0, sigma0, mu, tol, max_iter:
    pos(mu) + pos(r0) + pos(2 * r0 - alpha * r0 * r0 - sigma0 * sigma0) + _tolpre(tol, max_iter),
    symbol="SOL_uni", omit=[{"tol", "max_iter"}, {"mu", "tol", "max_iter"}], budget=(Fraction(1, 10 ** 6), 50),
    facts=lambda x, a: [tm.lt(ZERO, radius(x, a["alpha"], a["r0"], a["sigma0"]))])
_uni.extra_samples = uni_samples


# ---------------------------------------------------------------------------------------------- Kepler propagation
def _U_np(n, x, a):
    x, a = np.broadcast_arrays(np.asarray(x, float), np.asarray(a, float))
    z = a * x * x
    s = np.zeros_like(x)
    t = x ** n / float(np.prod(np.arange(1, n + 1))) if n else np.ones_like(x)
    small = np.abs(z) < 9.0
    zz = np.where(small, z, 0.0)
    for k in range(22):
        s = s + t
        t = -t * zz / ((n + 2 * k + 1) * (n + 2 * k + 2))
    with np.errstate(all="ignore"):
        q_ = np.sqrt(np.abs(a))
        u0 = np.where(a > 0, np.cos(q_ * x), np.cosh(q_ * x))
        u1 = np.where(a > 0, np.sin(q_ * x), np.sinh(q_ * x)) / q_
        big = {0: u0, 1: u1, 2: (1 - u0) / a, 3: (x - u1) / a}[n]
    return np.where(small, s, big)


_SOLMEMO = {}


def _sol_uni_np(dt, al, r0, s0_, mu):
    dt, al, r0, s0_, mu = np.broadcast_arrays(*[np.asarray(v, float) for v in (dt, al, r0, s0_, mu)])
    key = hash(b"".join(a.tobytes() for a in (dt, al, r0, s0_, mu)))
    if key in _SOLMEMO:
        return _SOLMEMO[key]
    g = lambda x: r0 * _U_np(1, x, al) + s0_ * _U_np(2, x, al) + _U_np(3, x, al) - np.sqrt(mu) * dt
    lo, hi = -np.ones_like(dt), np.ones_like(dt)
    with np.errstate(all="ignore"):
        for _ in range(30):
            a, b = g(hi) < 0, g(lo) > 0
            if not (a.any() or b.any()):
                break
            hi, lo = np.where(a, 2 * hi, hi), np.where(b, 2 * lo, lo)
        for _ in range(26):
            m = (lo + hi) / 2
            up = g(m) > 0
            hi, lo = np.where(up, m, hi), np.where(up, lo, m)
        x = (lo + hi) / 2
        for _ in range(3):
            y = x - g(x) / (r0 * _U_np(0, x, al) + s0_ * _U_np(1, x, al) + _U_np(2, x, al))
            x = np.where(np.isfinite(y) & (np.abs(y - x) <= hi - lo), y, x)
    if len(_SOLMEMO) > 400:
        _SOLMEMO.clear()
    _SOLMEMO[key] = x
    return x


def _sol_uni_mp(dt, al, r0, s0_, mu):
    import mpmath as mp

    def U(n, x):
        z = al * x * x
        if abs(z) < 4:
            t, s = x ** n / mp.factorial(n), mp.mpf(0)
            for k in range(60):
                s += t
                t = -t * z / ((n + 2 * k + 1) * (n + 2 * k + 2))
            return s
        q_ = mp.sqrt(abs(al))
        u0, u1 = (mp.cos(q_ * x), mp.sin(q_ * x) / q_) if al > 0 else (mp.cosh(q_ * x), mp.sinh(q_ * x) / q_)
        return {0: u0, 1: u1, 2: (1 - u0) / al, 3: (x - u1) / al}[n]
    x = mp.mpf(float(_sol_uni_np(float(dt), float(al), float(r0), float(s0_), float(mu))))
    for _ in range(6):
        x = x - (r0 * U(1, x) + s0_ * U(2, x) + U(3, x) - mp.sqrt(mu) * dt) / (r0 * U(0, x) + s0_ * U(1, x) + U(2, x))
    return x


tm.NUM["SOL_uni"] = (_sol_uni_np, _sol_uni_mp)


def kepler_flow(chi, al, R0, sig0, mu, r0_vec, v0_vec):
    """Lagrange coefficients at chi applied to the initial state (scalar chi)"""
    u = [tm.fn(f"U{n}", chi, al) for n in range(3)]
    sm = tm.sqrt(mu)
    r = R0 * u[0] + sig0 * u[1] + u[2]
    F_, G_ = 1 - u[2] / R0, (R0 * u[1] + sig0 * u[2]) / sm
    Ft_, Gt_ = -sm * u[1] / (r * R0), 1 - u[2] / r
    return [F_ * a + G_ * b for a, b in zip(r0_vec, v0_vec)], [Ft_ * a + Gt_ * b for a, b in zip(r0_vec, v0_vec)]


def kepler_spec(ts, r0_vec, v0_vec, mu):
    m = _o(mu)[()]
    R0 = norm(r0_vec)[()]
    V2 = dot(v0_vec, v0_vec)[()]
    al = 2 / R0 - V2 / m
    sig0 = dot(r0_vec, v0_vec)[()] / tm.sqrt(m)
    tt = _o(ts).reshape(-1)
    rr, vv = np.empty((len(tt), 3), dtype=object), np.empty((len(tt), 3), dtype=object)
    for i, t in enumerate(tt):
        chi = tm.fn("SOL_uni", t, al, R0, sig0, m)
        rr[i, :], vv[i, :] = kepler_flow(chi, al, R0, sig0, m, r0_vec, v0_vec)
    return rr, vv


def kepler_pre(ts, r0_vec, v0_vec, mu):
    m = _o(mu)[()]
    h = cross(r0_vec, v0_vec)
    R0 = norm(r0_vec)[()]
    out = pos(m) + rpos(r0_vec) + rpos(h) + nonzero(2 * m - R0 * dot(v0_vec, v0_vec)[()])
    al, sig0 = 2 / R0 - dot(v0_vec, v0_vec)[()] / m, dot(r0_vec, v0_vec)[()] / tm.sqrt(m)
    # lemma radius_positive: the orbital radius at every generalised anomaly is positive
    for t in _o(ts).ravel():
        chi = tm.fn("SOL_uni", t, al, R0, sig0, m)
        out.append(tm.lt(ZERO, radius(chi, al, R0, sig0)))
    return out


Contract("kepler", f"{A}.prop:kepler", [Param("ts", (-3.0, 3.0)), V("r0_vec"), V("v0_vec"), Param("mu", "pos", default=1)],
         kepler_spec, kepler_pre, batch=[{}, {"ts": (3,)}, {"ts": (1,)}], omit=[{"mu"}], tol=3e-5, npool=600, nconf=3)


# ---------------------------------------------------------------------------------------------- numerical propagation
from jv import cowell as _cowell   # noqa: E402
_cowell.define()
