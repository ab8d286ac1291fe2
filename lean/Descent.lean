import Mathlib

/-!
Descent lemmas for C07.  Each theorem's hypotheses are what the contracts of /verif/contracts prove about the code
(the update's defining equation); its conclusion is that the objective does not increase in that step.
-/

open Finset Real

namespace Descent

/-- scalar: the value of the surrogate at its minimiser -/
lemma surrogate_le (q P R x : ℝ) (hq : 0 < q) (hR : 0 ≤ R) (hx : 0 < x)
    (h : x ^ (q + 1) * R = q * P) : P * (x ^ (-q) - 1) + R * (x - 1) ≤ 0 := by
  have hb : 1 + (q + 1) * (x - 1) ≤ x ^ (q + 1) := by
    have := one_add_mul_self_le_rpow_one_add (s := x - 1) (by linarith) (p := q + 1) (by linarith)
    simpa using this
  have hm : x ^ (q + 1) * x ^ (-q) = x := by
    rw [← rpow_add hx]; simp
  have hP : P = x ^ (q + 1) * R / q := by field_simp; linarith
  have key : P * (x ^ (-q) - 1) + R * (x - 1) = R * (x - x ^ (q + 1) + q * (x - 1)) / q := by
    rw [hP]
    have : x ^ (q + 1) * R / q * (x ^ (-q) - 1) = R * (x ^ (q + 1) * x ^ (-q) - x ^ (q + 1)) / q := by ring
    rw [this, hm]; field_simp
  rw [key]
  apply div_nonpos_of_nonpos_of_nonneg _ hq.le
  apply mul_nonpos_of_nonneg_of_nonpos hR
  nlinarith

/-- Jensen for x ↦ x^(-q) with weights summing to one -/
lemma jensen_neg {K : Type*} [Fintype K] (w x : K → ℝ) (q : ℝ) (hq : 0 < q) (hw : ∀ k, 0 ≤ w k)
    (h1 : ∑ k, w k = 1) (hx : ∀ k, 0 < x k) :
    (∑ k, w k * x k) ^ (-q) ≤ ∑ k, w k * (x k) ^ (-q) := by
  set y := ∑ k, w k * x k with hy
  have hypos : 0 < y := by
    have : ∃ k ∈ univ, 0 < w k := by
      by_contra hcon
      push Not at hcon
      have : ∑ k, w k ≤ 0 := sum_nonpos (fun k hk => hcon k hk)
      linarith
    obtain ⟨k, hk, hwk⟩ := this
    exact sum_pos' (fun i _ => mul_nonneg (hw i) (hx i).le) ⟨k, hk, mul_pos hwk (hx k)⟩
  have tang : ∀ k, y ^ (-q) * (1 - q * (x k / y - 1)) ≤ (x k) ^ (-q) := by
    intro k
    have hs : 0 < x k / y := div_pos (hx k) hypos
    have e1 : (x k) ^ (-q) = y ^ (-q) * (x k / y) ^ (-q) := by
      rw [div_rpow (hx k).le hypos.le]; field_simp
    rw [e1]
    apply mul_le_mul_of_nonneg_left _ (rpow_nonneg hypos.le _)
    have : (x k / y) ^ (-q) = exp (-q * log (x k / y)) := by
      rw [rpow_def_of_pos hs]; ring_nf
    rw [this]
    have h2 := add_one_le_exp (-q * log (x k / y))
    have h3 := log_le_sub_one_of_pos hs
    nlinarith
  calc y ^ (-q) = ∑ k, w k * (y ^ (-q) * (1 - q * (x k / y - 1))) := by
        have : ∑ k, w k * (y ^ (-q) * (1 - q * (x k / y - 1)))
            = y ^ (-q) * ((1 + q) * ∑ k, w k - q / y * ∑ k, w k * x k) := by
          rw [mul_sum, mul_sum, ← sum_sub_distrib, mul_sum]
          apply sum_congr rfl; intro k _; field_simp; ring
        rw [this, h1, ← hy]; field_simp; ring
    _ ≤ _ := sum_le_sum (fun k _ => mul_le_mul_of_nonneg_left (tang k) (hw k))

/-- multiplicative step of a nonnegative linear model λ_e = Σ_k θ_k c_ek for Σ_e a_e λ_e^(-q) + b_e log λ_e
(Gauss: q = 2/p, a = |y|², b = 2/p;  generalized Gauss: q = β/p, a = |y|^β, b = 2/p) -/
theorem nmf_step {E K : Type*} [Fintype E] [Fintype K] (a b : E → ℝ) (c : E → K → ℝ) (θ θ' : K → ℝ) (q : ℝ)
    (hq : 0 < q) (ha : ∀ e, 0 ≤ a e) (hb : ∀ e, 0 ≤ b e) (hc : ∀ e k, 0 ≤ c e k) (hθ : ∀ k, 0 < θ k)
    (hθ' : ∀ k, 0 < θ' k) (hl : ∀ e, 0 < ∑ k, θ k * c e k)
    (upd : ∀ k, (θ' k) ^ (q + 1) * ∑ e, b e * c e k / ∑ l, θ l * c e l
      = (θ k) ^ (q + 1) * (q * ∑ e, a e * (∑ l, θ l * c e l) ^ (-q - 1) * c e k)) :
    ∑ e, (a e * (∑ k, θ' k * c e k) ^ (-q) + b e * log (∑ k, θ' k * c e k))
      ≤ ∑ e, (a e * (∑ k, θ k * c e k) ^ (-q) + b e * log (∑ k, θ k * c e k)) := by
  set L : E → ℝ := fun e => ∑ k, θ k * c e k with hL
  set L' : E → ℝ := fun e => ∑ k, θ' k * c e k with hL'
  let x : K → ℝ := fun k => θ' k / θ k
  let w : E → K → ℝ := fun e k => θ k * c e k / L e
  have hx : ∀ k, 0 < x k := fun k => div_pos (hθ' k) (hθ k)
  have hw : ∀ e k, 0 ≤ w e k := fun e k => div_nonneg (mul_nonneg (hθ k).le (hc e k)) (hl e).le
  have hw1 : ∀ e, ∑ k, w e k = 1 := by
    intro e
    simp only [w]
    rw [← sum_div]
    exact div_self (hl e).ne'
  have hwx : ∀ e, L' e = L e * ∑ k, w e k * x k := by
    intro e
    rw [mul_sum]
    apply sum_congr rfl; intro k _
    have h1 := (hl e).ne'
    have h2 := (hθ k).ne'
    simp only [w, x]
    have h1' : L e ≠ 0 := h1
    field_simp
  have hS : ∀ e, 0 < ∑ k, w e k * x k := by
    intro e
    have : ∃ k ∈ univ, 0 < w e k := by
      by_contra hcon
      push Not at hcon
      have : ∑ k, w e k ≤ 0 := sum_nonpos (fun k hk => hcon k hk)
      linarith [hw1 e]
    obtain ⟨k, hk, hwk⟩ := this
    exact sum_pos' (fun i _ => mul_nonneg (hw e i) (hx i).le) ⟨k, hk, mul_pos hwk (hx k)⟩
  -- per observation
  have per : ∀ e, (a e * (L' e) ^ (-q) + b e * log (L' e)) - (a e * (L e) ^ (-q) + b e * log (L e))
      ≤ ∑ k, (a e * (L e) ^ (-q) * w e k * ((x k) ^ (-q) - 1) + b e * w e k * (x k - 1)) := by
    intro e
    have j := jensen_neg (w e) x q hq (hw e) (hw1 e) hx
    have l := log_le_sub_one_of_pos (hS e)
    have e1 : (L' e) ^ (-q) = (L e) ^ (-q) * (∑ k, w e k * x k) ^ (-q) := by
      rw [hwx e, mul_rpow (hl e).le (hS e).le]
    have e2 : log (L' e) = log (L e) + log (∑ k, w e k * x k) := by
      rw [hwx e, log_mul (hl e).ne' (hS e).ne']
    have r : ∑ k, (a e * (L e) ^ (-q) * w e k * ((x k) ^ (-q) - 1) + b e * w e k * (x k - 1))
        = a e * (L e) ^ (-q) * (∑ k, w e k * (x k) ^ (-q) - 1) + b e * (∑ k, w e k * x k - 1) := by
      have t1 : ∑ k, (a e * (L e) ^ (-q) * w e k * ((x k) ^ (-q) - 1) + b e * w e k * (x k - 1))
          = a e * (L e) ^ (-q) * (∑ k, w e k * (x k) ^ (-q) - ∑ k, w e k)
            + b e * (∑ k, w e k * x k - ∑ k, w e k) := by
        rw [← sum_sub_distrib, ← sum_sub_distrib, mul_sum, mul_sum, ← sum_add_distrib]
        apply sum_congr rfl; intro k _; ring
      rw [t1, hw1 e]
    rw [r, e1, e2]
    have p1 : a e * (L e) ^ (-q) * (∑ k, w e k * x k) ^ (-q) ≤ a e * (L e) ^ (-q) * ∑ k, w e k * (x k) ^ (-q) :=
      mul_le_mul_of_nonneg_left j (mul_nonneg (ha e) (rpow_nonneg (hl e).le _))
    have p2 : b e * log (∑ k, w e k * x k) ≤ b e * (∑ k, w e k * x k - 1) :=
      mul_le_mul_of_nonneg_left l (hb e)
    nlinarith
  -- per parameter
  have par : ∀ k, (∑ e, a e * (L e) ^ (-q) * w e k) * ((x k) ^ (-q) - 1) + (∑ e, b e * w e k) * (x k - 1) ≤ 0 := by
    intro k
    apply surrogate_le q _ _ _ hq (sum_nonneg fun e _ => mul_nonneg (hb e) (hw e k)) (hx k)
    have u := upd k
    have s1 : ∑ e, b e * w e k = θ k * ∑ e, b e * c e k / L e := by
      rw [mul_sum]; apply sum_congr rfl; intro e _; simp only [w]; ring
    have s2 : ∑ e, a e * (L e) ^ (-q) * w e k = θ k * ∑ e, a e * (L e) ^ (-q - 1) * c e k := by
      rw [mul_sum]; apply sum_congr rfl; intro e _
      simp only [w]
      have : (L e) ^ (-q - 1) = (L e) ^ (-q) / L e := by
        rw [rpow_sub (hl e), rpow_one]
      rw [this]; ring
    rw [s1, s2]
    have hxk : (x k) ^ (q + 1) = (θ' k) ^ (q + 1) / (θ k) ^ (q + 1) := div_rpow (hθ' k).le (hθ k).le _
    have hpos : 0 < (θ k) ^ (q + 1) := rpow_pos_of_pos (hθ k) _
    rw [hxk]
    field_simp
    have u' : (θ' k) ^ (q + 1) * ∑ e, b e * c e k / L e
      = (θ k) ^ (q + 1) * (q * ∑ e, a e * (L e) ^ (-q - 1) * c e k) := u
    linarith [congrArg (fun z => θ k * z) u']
  have tot : ∑ e, ((a e * (L' e) ^ (-q) + b e * log (L' e)) - (a e * (L e) ^ (-q) + b e * log (L e))) ≤ 0 := by
    calc _ ≤ ∑ e, ∑ k, (a e * (L e) ^ (-q) * w e k * ((x k) ^ (-q) - 1) + b e * w e k * (x k - 1)) :=
          sum_le_sum fun e _ => per e
      _ = ∑ k, ((∑ e, a e * (L e) ^ (-q) * w e k) * ((x k) ^ (-q) - 1) + (∑ e, b e * w e k) * (x k - 1)) := by
          rw [sum_comm]
          apply sum_congr rfl; intro k _
          rw [sum_add_distrib, sum_mul, sum_mul]
      _ ≤ 0 := sum_nonpos fun k _ => par k
  rw [sum_sub_distrib] at tot
  linarith

/-- Student-t model: Σ_e γ_e log(1 + u_e λ_e^(-q)) + b_e log λ_e, through the tangent of the logarithm -/
theorem nmf_step_t {E K : Type*} [Fintype E] [Fintype K] (g u b : E → ℝ) (c : E → K → ℝ) (θ θ' : K → ℝ) (q : ℝ)
    (hq : 0 < q) (hg : ∀ e, 0 ≤ g e) (hu : ∀ e, 0 ≤ u e) (hb : ∀ e, 0 ≤ b e) (hc : ∀ e k, 0 ≤ c e k)
    (hθ : ∀ k, 0 < θ k) (hθ' : ∀ k, 0 < θ' k) (hl : ∀ e, 0 < ∑ k, θ k * c e k) (hl' : ∀ e, 0 < ∑ k, θ' k * c e k)
    (upd : ∀ k, (θ' k) ^ (q + 1) * ∑ e, b e * c e k / ∑ l, θ l * c e l
      = (θ k) ^ (q + 1) * (q * ∑ e, (g e * u e / (1 + u e * (∑ l, θ l * c e l) ^ (-q))) * (∑ l, θ l * c e l) ^ (-q - 1) * c e k)) :
    ∑ e, (g e * log (1 + u e * (∑ k, θ' k * c e k) ^ (-q)) + b e * log (∑ k, θ' k * c e k))
      ≤ ∑ e, (g e * log (1 + u e * (∑ k, θ k * c e k) ^ (-q)) + b e * log (∑ k, θ k * c e k)) := by
  have hpos : ∀ e, 0 < 1 + u e * (∑ k, θ k * c e k) ^ (-q) := fun e => by
    have := mul_nonneg (hu e) (rpow_nonneg (hl e).le (-q)); linarith
  have hpos' : ∀ e, 0 < 1 + u e * (∑ k, θ' k * c e k) ^ (-q) := fun e => by
    have := mul_nonneg (hu e) (rpow_nonneg (hl' e).le (-q)); linarith
  have h := nmf_step (fun e => g e * u e / (1 + u e * (∑ l, θ l * c e l) ^ (-q))) b c θ θ' q hq
    (fun e => div_nonneg (mul_nonneg (hg e) (hu e)) (hpos e).le) hb hc hθ hθ' hl upd
  have tang : ∀ e, g e * log (1 + u e * (∑ k, θ' k * c e k) ^ (-q))
      ≤ g e * log (1 + u e * (∑ k, θ k * c e k) ^ (-q))
        + (g e * u e / (1 + u e * (∑ l, θ l * c e l) ^ (-q))) * ((∑ k, θ' k * c e k) ^ (-q) - (∑ k, θ k * c e k) ^ (-q)) := by
    intro e
    have hq1 : 0 < (1 + u e * (∑ k, θ' k * c e k) ^ (-q)) / (1 + u e * (∑ k, θ k * c e k) ^ (-q)) := div_pos (hpos' e) (hpos e)
    have l := log_le_sub_one_of_pos hq1
    rw [log_div (hpos' e).ne' (hpos e).ne'] at l
    have m := mul_le_mul_of_nonneg_left l (hg e)
    have r : g e * ((1 + u e * (∑ k, θ' k * c e k) ^ (-q)) / (1 + u e * (∑ k, θ k * c e k) ^ (-q)) - 1)
        = (g e * u e / (1 + u e * (∑ l, θ l * c e l) ^ (-q))) * ((∑ k, θ' k * c e k) ^ (-q) - (∑ k, θ k * c e k) ^ (-q)) := by
      have := (hpos e).ne'
      field_simp; ring
    rw [r] at m
    linarith
  have := sum_le_sum (s := univ) fun e (_ : e ∈ univ) => tang e
  simp only [sum_add_distrib, mul_sub, sum_sub_distrib] at this h ⊢
  linarith

/-- the update in root form satisfies the equation of `nmf_step` -/
theorem upd_of_root (t t' A B q : ℝ) (hq : 0 < q) (ht : 0 < t) (hA : 0 ≤ A) (hB : 0 < B)
    (h : t' = t * (A / B) ^ (1 / (q + 1))) : t' ^ (q + 1) * B = t ^ (q + 1) * A := by
  have h1 : (0 : ℝ) ≤ A / B := div_nonneg hA hB.le
  have hq1 : q + 1 ≠ 0 := by linarith
  rw [h, mul_rpow ht.le (rpow_nonneg h1 _), ← rpow_mul h1, one_div, inv_mul_cancel₀ hq1, rpow_one]
  field_simp

end Descent
