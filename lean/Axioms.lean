/-
Facts about real functions used by the verifier as instances (see DESIGN.md, "trusted base").
Checked by `lake env lean Axioms.lean` / `lean Axioms.lean` against Mathlib; no `sorry`, no extra axioms.
-/
import Mathlib

open Real

namespace JV

/-- `sin` lies within the quadratic Taylor tube around its tangent: used for the exit criterion of the elliptic
Kepler solver (lemma `newton_exit`). -/
theorem sin_taylor_upper (p x : ℝ) : sin x - sin p - (x - p) * cos p ≤ (x - p) ^ 2 / 2 := by
  have key : ∀ h : ℝ, sin (p + h) - sin p - h * cos p ≤ h ^ 2 / 2 := by
    intro h
    let g : ℝ → ℝ := fun t => t ^ 2 / 2 - (sin (p + t) - sin p - t * cos p)
    have hg : ∀ t, HasDerivAt g (t - (cos (p + t) - cos p)) t := by
      intro t
      have h1 : HasDerivAt (fun t : ℝ => t ^ 2 / 2) t t := by
        have := (hasDerivAt_pow 2 t).div_const 2
        simpa using this
      have h2 : HasDerivAt (fun t : ℝ => sin (p + t)) (cos (p + t)) t := by
        have := ((hasDerivAt_id t).const_add p).sin
        simpa using this
      have h3 : HasDerivAt (fun t : ℝ => t * cos p) (cos p) t := by
        have := (hasDerivAt_id t).mul_const (cos p)
        simpa using this
      exact h1.sub ((h2.sub_const (sin p)).sub h3)
    have hlip : ∀ t : ℝ, |cos (p + t) - cos p| ≤ |t| := by
      intro t
      have := abs_cos_sub_cos_le (p + t) p
      simpa using this
    have hd : Differentiable ℝ g := fun t => (hg t).differentiableAt
    have g0 : g 0 = 0 := by simp [g]
    have hgh : 0 ≤ g h := by
      rcases le_total 0 h with hh | hh
      · have : MonotoneOn g (Set.Ici 0) := by
          apply monotoneOn_of_deriv_nonneg (convex_Ici 0) hd.continuous.continuousOn hd.differentiableOn
          intro t ht
          rw [(hg t).deriv]
          simp at ht
          have := hlip t
          rw [abs_of_pos ht] at this
          linarith [abs_le.mp this]
        rw [← g0]
        exact this (Set.mem_Ici.mpr le_rfl) (Set.mem_Ici.mpr hh) hh
      · have : AntitoneOn g (Set.Iic 0) := by
          apply antitoneOn_of_deriv_nonpos (convex_Iic 0) hd.continuous.continuousOn hd.differentiableOn
          intro t ht
          rw [(hg t).deriv]
          simp at ht
          have := hlip t
          rw [abs_of_neg ht] at this
          linarith [abs_le.mp this]
        rw [← g0]
        exact this (Set.mem_Iic.mpr hh) (Set.mem_Iic.mpr le_rfl) hh
    simp only [g] at hgh
    linarith
  have := key (x - p)
  simpa using this

theorem sin_taylor_lower (p x : ℝ) : -(sin x - sin p - (x - p) * cos p) ≤ (x - p) ^ 2 / 2 := by
  have h := sin_taylor_upper (-p) (-x)
  simp only [sin_neg, cos_neg] at h
  nlinarith [h]

theorem sin_taylor (p x : ℝ) : |sin x - sin p - (x - p) * cos p| ≤ (x - p) ^ 2 / 2 :=
  abs_le.mpr ⟨by linarith [sin_taylor_lower p x], sin_taylor_upper p x⟩

/-- The closed forms used as the definition of the universal functions are the Stumpff-type series
`chi^n * Σ_k (-α chi²)^k/(n+2k)!`. -/
noncomputable def term (n : ℕ) (a x : ℝ) (k : ℕ) : ℝ := x ^ n * (-(a * x ^ 2)) ^ k / (n + 2 * k).factorial

theorem U0_pos {a : ℝ} (x : ℝ) (ha : 0 < a) : HasSum (term 0 a x) (cos (√a * x)) := by
  have h := Real.hasSum_cos (√a * x)
  refine (congrArg (fun f => HasSum f _) (funext fun k => ?_)).mpr h
  unfold term
  have : (√a * x) ^ (2 * k) = (a * x ^ 2) ^ k := by
    rw [pow_mul, mul_pow, Real.sq_sqrt ha.le]
  rw [this]
  simp [neg_pow (a * x ^ 2) k]

theorem U1_pos {a : ℝ} (x : ℝ) (ha : 0 < a) : HasSum (term 1 a x) (sin (√a * x) / √a) := by
  have h := (Real.hasSum_sin (√a * x)).div_const √a
  have hs : √a ≠ 0 := (Real.sqrt_pos.mpr ha).ne'
  refine (congrArg (fun f => HasSum f _) (funext fun k => ?_)).mpr h
  unfold term
  have : (√a * x) ^ (2 * k + 1) = (a * x ^ 2) ^ k * (√a * x) := by
    rw [pow_succ, pow_mul, mul_pow, Real.sq_sqrt ha.le]
  rw [this, neg_pow (a * x ^ 2) k, add_comm 1 (2 * k)]
  field_simp

theorem U0_neg {a : ℝ} (x : ℝ) (ha : a < 0) : HasSum (term 0 a x) (cosh (√(-a) * x)) := by
  have h := Real.hasSum_cosh (√(-a) * x)
  refine (congrArg (fun f => HasSum f _) (funext fun k => ?_)).mpr h
  unfold term
  have : (√(-a) * x) ^ (2 * k) = (-(a * x ^ 2)) ^ k := by
    rw [pow_mul, mul_pow, Real.sq_sqrt (by linarith)]
    ring_nf
  rw [this]
  simp

theorem U1_neg {a : ℝ} (x : ℝ) (ha : a < 0) : HasSum (term 1 a x) (sinh (√(-a) * x) / √(-a)) := by
  have h := (Real.hasSum_sinh (√(-a) * x)).div_const √(-a)
  have hs : √(-a) ≠ 0 := (Real.sqrt_pos.mpr (by linarith)).ne'
  refine (congrArg (fun f => HasSum f _) (funext fun k => ?_)).mpr h
  unfold term
  have : (√(-a) * x) ^ (2 * k + 1) = (-(a * x ^ 2)) ^ k * (√(-a) * x) := by
    rw [pow_succ, pow_mul, mul_pow, Real.sq_sqrt (by linarith)]
    ring_nf
  rw [this, add_comm 1 (2 * k)]
  field_simp

theorem U_zero (n : ℕ) (x : ℝ) : HasSum (term n 0 x) (x ^ n / n.factorial) := by
  have h := hasSum_single (f := term n 0 x) 0 (by
    intro k hk
    unfold term
    simp [hk])
  simpa [term] using h

/-- the recursion `U_{n+2} = (chi^n/n! - U_n)/alpha` used to define the orders 2..5 -/
theorem U_rec {n : ℕ} {a x u : ℝ} (ha : a ≠ 0) (h : HasSum (term n a x) u) :
    HasSum (term (n + 2) a x) ((x ^ n / n.factorial - u) / a) := by
  have h1 : HasSum (fun k => term n a x (k + 1)) (u - term n a x 0) := by
    have := (hasSum_nat_add_iff' (f := term n a x) 1).mpr h
    simpa using this
  have h2 := h1.div_const (-a)
  have e : ∀ k, term n a x (k + 1) / (-a) = term (n + 2) a x k := by
    intro k
    unfold term
    have : n + 2 * (k + 1) = n + 2 + 2 * k := by ring
    rw [this, pow_succ (-(a * x ^ 2)) k, pow_add x n 2]
    field_simp
  simp only [e] at h2
  have e2 : (u - term n a x 0) / (-a) = (x ^ n / n.factorial - u) / a := by
    unfold term
    simp
    field_simp
    ring
  rw [← e2]
  exact h2

/-- the radius of a non-rectilinear conic is positive: final step of lemma `radius_positive` -/
theorem sos_pos {r0 p s c u : ℝ} (hr : 0 < r0) (hp : 0 < p) (hcu : ¬ (u = 0 ∧ c = 0)) :
    0 < (r0 * c + s * u) ^ 2 + p * u ^ 2 := by
  rcases eq_or_ne u 0 with hu | hu
  · have hc : c ≠ 0 := fun h => hcu ⟨hu, h⟩
    subst hu
    have : 0 < (r0 * c) ^ 2 := by positivity
    simpa using this
  · have : 0 < u ^ 2 := by positivity
    have := mul_pos hp this
    nlinarith [sq_nonneg (r0 * c + s * u)]

/-- the sign of `sin` on `(-2π, 2π)`, and its zeros at `±π`: used by the lemma `transfer_geometry` -/
theorem sin_sign (x : ℝ) :
    (0 < x ∧ x < π → 0 < sin x) ∧ (π < x ∧ x < 2 * π → sin x < 0) ∧ (-π < x ∧ x < 0 → sin x < 0) ∧
    (-2 * π < x ∧ x < -π → 0 < sin x) ∧ (x = π ∨ x = -π → sin x = 0) := by
  refine ⟨fun h => sin_pos_of_pos_of_lt_pi h.1 h.2, fun h => ?_, fun h => sin_neg_of_neg_of_neg_pi_lt h.2 h.1, fun h => ?_, fun h => ?_⟩
  · have := sin_pos_of_pos_of_lt_pi (x := x - π) (by linarith) (by linarith)
    rw [sin_sub_pi] at this; linarith
  · have := sin_neg_of_neg_of_neg_pi_lt (x := x + π) (by linarith) (by linarith)
    rw [sin_add_pi] at this; linarith
  · rcases h with h | h <;> simp [h]

end JV

#print axioms JV.sin_taylor
#print axioms JV.U0_pos
#print axioms JV.U1_pos
#print axioms JV.U0_neg
#print axioms JV.U1_neg
#print axioms JV.U_zero
#print axioms JV.U_rec
#print axioms JV.sos_pos
#print axioms JV.sin_sign
