import Mathlib

/-!
Majorization: the tangent inequalities of the source models and the composition with a descent step of the auxiliary function.
-/

open Finset Real

namespace Descent

/-- the objective decreases when the auxiliary function that touches it at the current point does:
`G` per-observation contrast, `s` per-observation weighted power, `D` the log-determinant term -/
theorem majorize {E : Type*} [Fintype E] (G G' φ s s' : E → ℝ) (D D' : ℝ)
    (tangent : ∀ e, G' e ≤ G e + φ e * (s' e - s e))
    (hQ : ∑ e, φ e * s' e + D' ≤ ∑ e, φ e * s e + D) : ∑ e, G' e + D' ≤ ∑ e, G e + D := by
  have h := sum_le_sum (s := univ) fun e (_ : e ∈ univ) => tangent e
  simp only [mul_sub, sum_add_distrib, sum_sub_distrib] at h
  linarith

/-- Laplace model: contrast 2‖y‖, weight 1/‖y‖ -/
theorem tangent_laplace (s s' : ℝ) (hs : 0 < s) (hs' : 0 ≤ s') : 2 * sqrt s' ≤ 2 * sqrt s + 1 / sqrt s * (s' - s) := by
  have h1 := sq_sqrt hs.le
  have h2 := sq_sqrt hs'
  have h3 := sqrt_pos.mpr hs
  have : 1 / sqrt s * (s' - s) = (sqrt s' ^ 2 - sqrt s ^ 2) / sqrt s := by rw [h1, h2]; ring
  rw [this, ← sub_nonneg]
  have : 2 * sqrt s + (sqrt s' ^ 2 - sqrt s ^ 2) / sqrt s - 2 * sqrt s' = (sqrt s' - sqrt s) ^ 2 / sqrt s := by
    field_simp; ring
  rw [this]; positivity

/-- Gauss model with one variance per frame: contrast M log v + ‖y‖²/v is linear in the power -/
theorem tangent_gauss (M v s s' : ℝ) : M * log v + s' / v = M * log v + s / v + 1 / v * (s' - s) := by ring

/-- the variance that is the mean power minimises M log v + s/v -/
theorem variance_step (M v s : ℝ) (hM : 0 < M) (hv : 0 < v) (hs : 0 < s) :
    M * log (s / M) + s / (s / M) ≤ M * log v + s / v := by
  have h := log_le_sub_one_of_pos (div_pos (div_pos hs hM) hv)
  rw [log_div (div_pos hs hM).ne' hv.ne'] at h
  have e : s / (s / M) = M := by field_simp
  have e2 : s / v = M * (s / M / v) := by field_simp
  rw [e, e2]; nlinarith

/-- Student-t model: γ log(1 + c s), weight γ c / (1 + c s) -/
theorem tangent_student (g c s s' : ℝ) (hg : 0 ≤ g) (hc : 0 ≤ c) (hs : 0 ≤ s) (hs' : 0 ≤ s') :
    g * log (1 + c * s') ≤ g * log (1 + c * s) + g * c / (1 + c * s) * (s' - s) := by
  have h1 : 0 < 1 + c * s := by positivity
  have h2 : 0 < 1 + c * s' := by positivity
  have h := log_le_sub_one_of_pos (div_pos h2 h1)
  rw [log_div h2.ne' h1.ne'] at h
  have e : g * c / (1 + c * s) * (s' - s) = g * ((1 + c * s') / (1 + c * s) - 1) := by field_simp; ring
  rw [e]; nlinarith

/-- generalized Gauss model: |y|^β = s^(β/2), weight β/2 s^(β/2 - 1) -/
theorem tangent_ggd (b s s' : ℝ) (hb : 0 < b) (hb2 : b ≤ 2) (hs : 0 < s) (hs' : 0 ≤ s') :
    s' ^ (b / 2) ≤ s ^ (b / 2) + b / 2 * s ^ (b / 2 - 1) * (s' - s) := by
  have h := rpow_one_add_le_one_add_mul_self (s := s' / s - 1) (by have := div_nonneg hs' hs.le; linarith) (p := b / 2)
    (by linarith) (by linarith)
  have e : 1 + (s' / s - 1) = s' / s := by ring
  rw [e, div_rpow hs' hs.le] at h
  have hp : 0 < s ^ (b / 2) := rpow_pos_of_pos hs _
  rw [div_le_iff₀ hp] at h
  have e2 : s ^ (b / 2 - 1) = s ^ (b / 2) / s := by rw [rpow_sub hs, rpow_one]
  rw [e2]
  have e3 : (1 + b / 2 * (s' / s - 1)) * s ^ (b / 2) = s ^ (b / 2) + b / 2 * (s ^ (b / 2) / s) * (s' - s) := by
    field_simp
  linarith

end Descent
