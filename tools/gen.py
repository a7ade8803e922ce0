"""Writes properties.jsonl and MANIFEST.json (single source for ids, titles, statements, levels)."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/astrodynx/"
KE, UF, LG, ST, OI, OE, PC = (S + "twobody/_" + n + ".py" for n in
                              ("kep_equ", "uniformulas", "lagrange", "state_trans", "orb_integrals", "orb_elements", "path_check"))
GR, RM, EV, CW, KP = S + "gravity/_general.py", S + "utils/_rot_mat.py", S + "events/radius.py", S + "prop/_cowell_method.py", S + "prop/_kepler.py"
ALL = [KE, UF, LG, ST, OI, OE, PC, GR, RM, EV, KP]

SAMPLE = "the tests evaluate a handful of hand-picked points (mostly unit orbits, mu = 1) and check a few digits; the claim is over a continuum of inputs"


def P(id, title, statement, over, text, why, files, mech, note=""):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note)


PROPS = [
    P("C01", "Elementary rotation matrices are exact right-handed axis rotations",
      "For every angle, each of the three rotation builders returns the 3x3 matrix that turns a vector counter-clockwise by that angle about its own axis, leaving the axis fixed (Rodrigues' formula). Hence every result is orthogonal with determinant +1, the inverse is the transpose and the rotation by the opposite angle, and successive rotations about one axis add their angles; a batch of angles gives one such matrix per angle.",
      ["inputs"], "all real angles, scalar and batched", SAMPLE, [RM], [("closed-form matrices", RM)]),
    P("C02", "Gravity accelerations are exact gradients of their zonal potentials",
      "For every position away from the centre, the point-mass, J2, J3 and J4 accelerations equal minus the gradient of mu/r*J_n*(R/r)^n*P_n(z/r) (of -mu/r for the point mass), for every gravitational parameter, zonal coefficient and reference radius. They do not depend on time or velocity, are curl-free and divergence-free, and exert no torque about the polar axis.",
      ["inputs"], "all nonzero positions, all velocities, times, mu > 0, J_n, R_eq", SAMPLE + "; wrong constants in rarely sampled components survive", [GR], [("component formulas", GR)]),
    P("C03", "Two-body integrals are the true constants of motion",
      "From any position (nonzero), velocity and gravitational parameter, the specific angular momentum, semimajor axis, eccentricity vector and semiparameter are exactly r x v, the vis-viva semimajor axis, ((v^2 - mu/r) r - (r.v) v)/mu and h^2/mu. They are therefore mutually consistent (h orthogonal to r, v and e; e^2 = 1 - p/a; r(1 + e cos f) = p) and constant along every two-body motion.",
      ["inputs", "histories"], "all states with r > 0, mu > 0, every conic type (parabola excluded for a)", SAMPLE, [OI], [("vector formulas", OI)]),
    P("C04", "Orbit size, shape, period and radius conversions are exact and mutually inverse",
      "Period, mean motion, semimajor axis, semiparameter, periapsis/apoapsis radius and the orbit equation obey their defining formulas for every admissible input, including hyperbolic eccentricities where they are defined. Converting there and back (a to period, a to p at given e) returns the original value; periapsis and apoapsis radii are the radii at true anomaly 0 and pi, and their sum is 2a.",
      ["inputs"], "a, p, P, mu > 0; e >= 0 (e != 1 where the formula is singular); all true anomalies with 1 + e cos f > 0", SAMPLE, [OI], [("conversion formulas", OI)]),
    P("C05", "Universal functions U0..U5 are the Stumpff-type functions on every branch",
      "For every generalized anomaly and every reciprocal semimajor axis (positive, zero or negative), the universal function of order n equals chi^n * sum_k (-alpha chi^2)^k/(n+2k)!, evaluated on the branch selected by the sign of alpha. Consequently U_n + alpha*U_{n+2} = chi^n/n!, dU_n/dchi = U_{n-1}, U0^2 + alpha*U1^2 = 1, parity and the addition formulas hold.",
      ["inputs"], "all real chi (any batch) and alpha", SAMPLE + "; each branch and order is sampled at one or two points", [UF], [("three-branch closed forms", UF)]),
    P("C06", "Kepler equations, their slopes and mean/generalized anomalies are exact",
      "The elliptic, hyperbolic and universal Kepler residuals, the two slope functions, the mean anomalies, the sigma function, the radius in universal variables and the generalized anomaly equal their defining formulas for every admissible input. The slopes are the exact derivatives of the residuals and are positive for e < 1 (elliptic) and e > 1 (hyperbolic); the derivative of the universal residual is the radius.",
      ["inputs"], "all anomalies, eccentricities, epochs, mu > 0, all conic types", SAMPLE, [KE, UF, OI], [("residual and slope functions", KE), ("sigma function", UF)]),
    P("C07", "Kepler solvers return a root within tolerance or exhaust their budget",
      "For every admissible input, each iterative Kepler solver performs Newton iterations from its documented starting value, stops no later than the iteration limit (a call mapped over a batch with vmap returns too), and on an earlier stop returns an anomaly whose residual (or last Newton correction) is within the requested tolerance. No operation of the iteration leaves its domain, so a finite input never produces NaN before the limit is reached; tolerance and iteration limit given by the caller are honoured.",
      ["inputs", "histories"], "all mean anomalies, e in [0,1) or e > 1, all universal-variable data of a physical orbit, every tolerance in (0,1] and every iteration limit >= 1, every iteration of the loop", "the tests solve a few easy orbits; convergence logic, the iteration cap, extreme anomalies and user tolerances need all inputs and all loop iterations", [KE], [("while loops with Newton update", KE)]),
    P("C08", "Lagrange coefficients are those of the two-body flow",
      "The coefficients F, G and their rates equal 1 - U2/r0, (r0 U1 + sigma0 U2)/sqrt(mu), -sqrt(mu) U1/(r r0) and 1 - U2/r for every input. With the universal functions of any generalized anomaly they satisfy F*Gt - Ft*G = 1, reproduce the radius and the orbital energy, start from the identity, and Ft and Gt are the time derivatives of F and G.",
      ["inputs"], "all radii > 0, sigma0, mu > 0, every generalized anomaly and conic type", SAMPLE, [LG], [("coefficient formulas", LG)]),
    P("C09", "Keplerian propagation is the two-body flow at every requested time",
      "For every non-rectilinear, non-parabolic initial state and every list of times (positive, negative, zero, in any order), the propagated position and velocity at each time are the Lagrange combination of the initial state at the solution of the universal Kepler equation for exactly that time and orbit. Each time is treated independently, so energy, angular momentum and eccentricity vector are those of the initial state and time zero returns it unchanged.",
      ["inputs", "histories"], "all states with r x v != 0 and nonzero energy, all times, mu > 0, both elliptic and hyperbolic orbits", "the tests propagate a few orbits to a few times; quantifies over all states and times", [KP, KE, UF, LG, OI], [("solver call per time and Lagrange combination", KP)]),
    P("C10", "The analytic state transition matrix and its blocks are exact",
      "For every pair of states of one two-body motion, the four 3x3 blocks and the assembled 6x6 matrix equal the closed-form partial derivatives of the final position and velocity with respect to the initial ones, with the secular coefficient, generalized anomaly and Lagrange coefficients belonging to that orbit and time interval. The matrix is the derivative of the two-body flow for elliptic and hyperbolic orbits and any gravitational parameter.",
      ["inputs"], "all initial/final states, time intervals, mu > 0, nonzero energy", "the tests compare one or two orbits with finite differences; sign or factor errors in terms vanishing there survive", [ST], [("block formulas and assembly", ST)]),
    P("C11", "Orbital elements convert to the correct position and velocity",
      "For every semiparameter, eccentricity, inclination, node, argument of periapsis and true anomaly (with positive radius) and every gravitational parameter, the resulting state is r = p/(1 + e cos f) along the direction of the rotated perifocal frame and velocity sqrt(mu/p)*(-sin f, e + cos f) in that frame. This holds for all quadrants, circular, elliptic and hyperbolic orbits, scalars and batches.",
      ["inputs"], "p, mu > 0, e >= 0, all angles with 1 + e cos f > 0, scalar/batched mixes", SAMPLE, [OE], [("perifocal rotation", OE)]),
    P("C12", "State-to-element conversion recovers every element in the right quadrant",
      "For every inclined, non-circular state, the conversion returns the semiparameter and eccentricity of the orbit, the inclination in [0, pi], the node in [0, 2pi), and argument of periapsis and true anomaly in the quadrant determined by the eccentricity vector and the sign of r.v. Re-converting the elements reproduces the original position and velocity; the single-element helpers return the angle between their vectors.",
      ["inputs"], "all states with r > 0, h not along the pole, e > 0, mu > 0, all conic types", "the tests check a few states in one quadrant; quadrant decisions need the whole domain", [OE, OI], [("quadrant selection", OE)]),
    P("C13", "Transfer-geometry predicates decide the true geometry",
      "The short-way test is true exactly when the motion from the first state reaches the second position through less than half a revolution; the periapsis-passage test is true exactly when the periapsis direction lies strictly inside the arc travelled (the two positions not collinear; a periapsis exactly at an end point counts as passed on the long way only); the minimum-radius test is true exactly when the periapsis radius of the state's orbit is below the limit. Each holds for every configuration and orientation, direct or retrograde.",
      ["inputs"], "all positions and velocities (r1 > 0), mu > 0, short and long transfers, all conic types", "the tests try a few planar configurations; the boundary between true and false is a surface in nine dimensions", [PC], [("sign tests", PC)]),
    P("C14", "The revolution bound from the periapsis limit is exact",
      "The maximum number of complete revolutions is the largest whole number of periods of the orbit whose periapsis is the allowed minimum and whose apoapsis is the larger of the two radii that fits into the time of flight. It holds for every limit, pair of radii (in either order), time of flight and gravitational parameter.",
      ["inputs"], "rp_min, r1, r2, mu > 0, tof >= 0, scalar and batched", SAMPLE, [PC], [("floor of time over minimum period", PC)]),
    P("C15", "Numerical propagators integrate exactly the configured problem",
      "Each numerical propagator performs exactly one integration of the given dynamics from time 0 and the given initial state to the requested final time, with the caller's parameters, event, integrator, step control and step budget (or the documented defaults), saving exactly at the documented times, and returns the integrator's result unchanged. No argument is dropped, altered or replaced.",
      ["inputs", "configurations"], "all initial states, final times (either sign), step sizes, output times, every combination of optional arguments given or omitted", "the tests run a few default configurations; forwarding of every option in every combination is not exercised", [CW, S + "diffeq/__init__.py"], [("call of the ODE integrator", CW)]),
    P("C16", "The minimum-radius event is the signed distance to the limit",
      "For every state and limit, the event value is the distance from the centre minus the configured minimum radius: negative exactly below the limit, zero on it, independent of time, velocity and any other parameter. Without a configured limit it is the plain radius.",
      ["inputs"], "all states of six or more components, limits, parameter sets", SAMPLE, [EV], [("radius minus limit", EV)]),
    P("C17", "Batched calls equal element-by-element calls",
      "For every function that accepts arrays, the result for a batch has the documented broadcast shape and each element equals the result of the scalar call on the corresponding elements of the arguments, for any mix of scalar and batched arguments. No element influences another.",
      ["inputs", "configurations"], "all values; batch patterns scalar/array per argument, sizes including 1, 3 and 6 (which coincide with component dimensions) and two batch axes", "the tests batch a few functions with two or three elements; axis mix-ups for coinciding sizes and mixed arguments are not reached", ALL, [("broadcasting throughout", S)]),
    P("C18", "All functions are pure, compilable, vectorizable and differentiable",
      "Every public function can be staged for just-in-time compilation, vectorized and (except the adaptive integrators) forward-differentiated for arbitrary inputs, without side effects. It leaves its arguments and default values unmodified, the same call gives the same result whatever was computed before, and a plain number means the same as an abstract (staged) value of that number.",
      ["programs", "histories"], "all public functions, all argument patterns, abstract (unknown) values", "a test compiles a few functions; concretisation or hidden state on another path or function is not seen", ALL + [CW], [("jax.numpy / lax only", S)]),
    P("C19", "Double precision is kept and whole-number inputs equal real inputs",
      "With double-precision inputs, every floating-point intermediate and result of every function is double precision. An integer-typed argument gives the same mathematical result as the equal real number (no truncation, no integer division, no rejection).",
      ["inputs", "programs"], "all functions, all inputs, each argument integer-typed separately and together", "the tests run in single precision with loose tolerances, so a narrowed intermediate is invisible", ALL, [("dtype-generic array code", S)]),
    P("C20", "Omitted arguments mean the documented canonical defaults",
      "Leaving out an optional argument gives, for every value of the others, the same result as passing its documented canonical-unit default (mu = 1, unit radius, zero sigma0 and epoch, documented tolerances and iteration limits, fifth-order integrator with 1e-8 tolerances and 4096 steps). The defaults are the same on every call.",
      ["inputs", "configurations"], "every function with optional arguments, every omitted subset listed by its signature, all values of the rest", "the tests mix explicit and default calls at single points where several defaults coincide", ALL + [CW], [("default arguments", S)]),
    P("C21", "Automatic derivatives of the closed-form functions are exact",
      "For every closed-form function, the forward-mode derivative with respect to each argument and the reverse-mode gradient of each result equal the mathematical derivative of the function, and are finite, at every input where the function is differentiable (off its branch boundaries, vector arguments nonzero). No argument's derivative is cut off, and a branch that is not selected never contaminates the gradient of the selected one.",
      ["inputs", "programs"], "all inputs where the defining formula is differentiable; every argument component, every result component, both differentiation modes", "the tests never differentiate; an exact value with a wrong or undefined derivative (detached argument, undefined unselected branch) passes all of them", ALL, [("jax.numpy formulas differentiated by jax", S)]),
    P("C22", "Derivatives through the Kepler solvers and the propagator are those of the solved equation",
      "Forward derivatives of the elliptic, hyperbolic and universal Kepler solvers follow the iteration itself: they start from the derivative of the initial guess, every iteration differentiates one Newton step, and at least one step is always made, so the result is the implicit derivative of the root up to a term proportional to the last correction. Given that, the derivatives of the propagated position and velocity with respect to time, initial position, initial velocity and gravitational parameter are exactly those of the two-body flow (at the epoch: dr/dt = v0).",
      ["inputs", "iterations"], "all admissible solver arguments (universal: alpha != 0, time != 0), all iteration counts and tolerances; all non-degenerate, non-parabolic initial states and times", "no test differentiates through a solver; a value within tolerance says nothing about its derivative", [KE, UF, KP], [("while loops differentiated by jax", KE), ("propagator", KP)]),
]

TECH = "deductive verification: sidecar contracts on the real functions, obligations from the traced program, ring normal forms + Z3"
NOTES = {
    "default": "Every obligation generated from /repo's current source is discharged for all inputs in real arithmetic (no bound); float rounding, overflow and cancellation are not modelled. Trusted: jax tracing, the primitive semantics in jv/extract.py, the ring/case-split prover, Z3. Run-time conformance points are an extra guard, not counted as proof.",
    "C07": "Loop invariants (Houdini over templates), variant, step, exit and definedness obligations proved for every iteration; quadratic-residual lemma uses a Taylor bound proved in lean/Axioms.lean. Convergence before the limit is not claimed. Real arithmetic.",
    "C15": "Wrapper code proved against the assumed contract of the external integrator (diffrax): all argument values symbolic, all given/omitted patterns of optional arguments. diffrax itself is assumed. 90 concrete calls per propagator are a labelled bounded addition.",
    "C17": "Relational: terms of the batched trace equal the scalar trace under renaming, for the enumerated shape patterns (all values; sizes 1,2,3,6,11 and 2-axis grids element by element; further sizes up to 1000 (thorough 65536) by identity of the staged programs up to the batch dimension).",
    "C18": "Staging for abstract values decides traceability for all values; effects read off the staged program. Unmodified arguments/defaults and history independence are a labelled bounded check on concrete calls.",
    "C19": "Type analysis of the complete staged program (callees inlined) plus term equality between integer- and float-typed traces; integer overflow not modelled.",
    "C21": "The program jax derives (jvp along each unit vector, gradient of each result) is extracted and proved equal to the symbolic derivative of the function's postcondition, with definedness of every operation of the derived program; hypotheses: precondition, off branch boundaries, vector arguments nonzero. Real arithmetic.",
    "C22": "Derived while-loop: start, step and at-least-one-step obligations with inferred invariants, for every iteration; kepler is verified modularly against the solver's derivative contract. Size of the last correction (convergence) is not claimed.",
    "C20": "Relational: terms of the call with an argument omitted equal the terms of the full call with the documented default substituted (loops: initial state, guard and step).",
}


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
    checks = []
    for p in PROPS:
        i = p["id"]
        checks.append({"property": i, "quick_cmd": f"/opt/venv/bin/python check.py {i} --tier quick",
                       "thorough_cmd": f"/opt/venv/bin/python check.py {i} --tier thorough",
                       "technique": TECH if i not in NOTES else TECH + " (relational / loop / wrapper obligations)",
                       "level": "proof", "level_note": NOTES.get(i, NOTES["default"])})
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python check.py --selftest", "checks": checks, "not_applicable": NA}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


NA = []
if __name__ == "__main__":
    main()
