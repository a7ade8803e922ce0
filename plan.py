"""Which contracts, cross-cutting obligations and lemmas decide which property."""
import lemmas as L
from jv import relational as R, cowell as W, calculus as K
from jv.leanfacts import obligations as lean

KEP = "|sin x - sin p - (x-p) cos p| <= (x-p)^2/2 (proved in lean/Axioms.lean, used as an instance)"
SGN = "sign of sin on (-2 pi, 2 pi) (proved in lean/Axioms.lean, used as an instance)"
EXT = "diffrax.diffeqsolve and the diffrax configuration classes: their documented behaviour is an assumed contract"

PLAN = {
    "C01": {"contracts": ["rotmat3dx", "rotmat3dy", "rotmat3dz"], "lemmas": [L.rotations]},
    "C02": {"contracts": ["point_mass_grav", "j2_acc", "j3_acc", "j4_acc"], "lemmas": [L.gravity]},
    "C03": {"contracts": ["angular_momentum", "semimajor_axis", "eccentricity_vector", "semiparameter"], "lemmas": [L.integrals]},
    "C04": {"contracts": ["orb_period", "a_from_period", "mean_motion", "equ_of_orbit", "radius_periapsis", "radius_apoapsis",
                          "semipara_from_ae", "a_from_pe", "mean_anomaly_elps"], "lemmas": [L.conversions]},
    "C05": {"contracts": [f"ufunc{n}" for n in range(6)], "lemmas": [L.universal, lean(["U0_pos", "U1_pos", "U0_neg", "U1_neg", "U_zero", "U_rec"])]},
    "C06": {"contracts": ["kepler_equ_elps", "dE", "kepler_equ_hypb", "dH", "mean_anomaly_elps", "mean_anomaly_hypb",
                          "sigma_fn", "generalized_anomaly", "equ_of_orb_uvi", "kepler_equ_uni"],
            "lemmas": [L.kepler_equations]},
    "C07": {"contracts": ["solve_kepler_elps", "solve_kepler_hypb", "solve_kepler_uni"], "lemmas": [L.newton_exit, L.radius_positive, lean(["sin_taylor", "sos_pos"])],
            "trusted": [KEP]},
    "C08": {"contracts": ["lagrange_F", "lagrange_G", "lagrange_Ft", "lagrange_Gt", "sigma_fn"], "lemmas": [L.lagrange]},
    "C09": {"contracts": ["kepler"], "lemmas": [L.lagrange, L.radius_positive]},
    "C10": {"contracts": ["C_func", "prpr0", "prpv0", "pvpr0", "pvpv0", "dxdx0"], "lemmas": [L.lagrange, L.transition]},
    "C11": {"contracts": ["coe2rv"], "lemmas": [L.element_state]},
    "C12": {"contracts": ["rv2coe", "inclination", "true_anomaly", "right_ascension", "argument_of_periapsis"],
            "lemmas": [L.elements_roundtrip]},
    "C13": {"contracts": ["is_short_way", "pass_perigee", "rp_islower_rmin"],
            "lemmas": [L.transfer_geometry, lean(["sin_sign"])], "trusted": [SGN]},
    "C14": {"contracts": ["nmax_by_periapsis"], "lemmas": [L.revolutions]},
    "C15": {"contracts": ["cowell_method", "fixed_steps", "adaptive_steps", "custom_steps", "to_final"],
            "extra": [W.orbdynx_record], "trusted": [EXT],
            "bounded": ["the same argument contract on 90 (thorough: 300) sampled concrete calls per propagator"]},
    "C16": {"contracts": ["radius_islow"], "lemmas": []},
    "C17": {"extra": [R.batching]},
    "C18": {"extra": [R.tracing, R.statics, W.traceable], "trusted": [EXT],
            "bounded": ["frame condition (arguments, defaults, history) on concrete calls (2 signatures x 3 calls per function, incomplete parameter sets): run for every "
                        "function, deciding only where the source-level frame analysis is undecided"]},
    "C19": {"extra": [R.precision, R.whole_numbers]},
    "C20": {"extra": [R.defaults, W.orbdynx_record, W.default_calls], "trusted": [EXT]},
    "C21": {"extra": [K.derivatives], "assumptions": [
        "derivatives are compared where the contract's formula is differentiable: off the branch boundaries, vector arguments nonzero"]},
    "C22": {"extra": [K.propagation], "assumptions": [
        "closeness to the implicit derivative is stated relative to the last Newton correction; its size after the iteration limit is not bounded"]},
}
