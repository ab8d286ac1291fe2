import Mathlib
open Finset Real Matrix
namespace Descent
set_option linter.unusedSectionVars false
variable {n : Type*} [Fintype n] [DecidableEq n]

/-- Hermitian positive semidefinite -/
def PSD (U : Matrix n n ℂ) : Prop := Uᴴ = U ∧ ∀ x : n → ℂ, 0 ≤ (x ⬝ᵥ (U *ᵥ star x)).re

lemma mul_star_re (z : ℂ) : (z * star z).re = ‖z‖ ^ 2 := by
  rw [Complex.star_def, Complex.mul_conj, Complex.normSq_eq_norm_sq]
  norm_cast

lemma entry (A B : Matrix n n ℂ) (i j : n) : (A * B * Aᴴ) i j = A i ⬝ᵥ (B *ᵥ star (A j)) := by
  rw [Matrix.mul_assoc]
  simp [Matrix.mul_apply, mulVec, dotProduct, conjTranspose_apply]

lemma form_star (B : Matrix n n ℂ) (hB : Bᴴ = B) (x y : n → ℂ) : star (x ⬝ᵥ (B *ᵥ star y)) = y ⬝ᵥ (B *ᵥ star x) := by
  rw [← star_dotProduct_star, star_mulVec, hB, star_star, dotProduct_comm, dotProduct_comm, dotProduct_mulVec]

lemma psd_conj (U W : Matrix n n ℂ) (hU : PSD U) : PSD (W * U * Wᴴ) := by
  constructor
  · simp [conjTranspose_mul, hU.1, Matrix.mul_assoc]
  · intro x
    have := hU.2 (x ᵥ* W)
    rw [star_vecMul] at this
    rw [← mulVec_mulVec, ← mulVec_mulVec, dotProduct_mulVec]
    exact this

/-- quadratic form of a Hermitian positive semidefinite G whose column k is the unit vector -/
lemma quad_ge (G : Matrix n n ℂ) (hG : PSD G) (k : n) (hk : ∀ m, G m k = if m = k then 1 else 0) (v : n → ℂ) :
    ‖v k‖ ^ 2 ≤ (v ⬝ᵥ (G *ᵥ star v)).re := by
  set r : n → ℂ := v - v k • Pi.single k 1 with hr
  have hv : v = r + v k • Pi.single k 1 := by simp [hr]
  have hGk : G *ᵥ (Pi.single k 1) = Pi.single k 1 := by
    ext m
    simp [hk m, Pi.single_apply]
  have hrk : r k = 0 := by simp [hr]
  have hpos := hG.2 r
  have hs : star v = star r + star (v k) • Pi.single k 1 := by
    conv_lhs => rw [hv]
    ext m
    by_cases h : m = k
    · subst h; simp
    · simp [h]
  have c1 : (Pi.single k 1 : n → ℂ) ⬝ᵥ (G *ᵥ star r) = 0 := by
    have := form_star G hG.1 r (Pi.single k 1)
    have e1 : star (Pi.single k 1 : n → ℂ) = Pi.single k 1 := by
      ext m; by_cases h : m = k
      · subst h; simp
      · simp [h]
    rw [e1, hGk] at this
    rw [← this]; simp [hrk]
  have e : v ⬝ᵥ (G *ᵥ star v) = r ⬝ᵥ (G *ᵥ star r) + v k * star (v k) := by
    rw [hs]
    nth_rewrite 1 [hv]
    rw [mulVec_add, mulVec_smul, hGk]
    simp only [add_dotProduct, dotProduct_add, smul_dotProduct, dotProduct_smul, c1]
    simp [hrk]
    ring
  rw [e, Complex.add_re, mul_star_re]
  linarith

/-- one row of iterative projection: the row that solves its stationarity system minimises the auxiliary function -/
theorem ip_step (W W' U : Matrix n n ℂ) (hU : PSD U) (k : n) (hrow : ∀ m, m ≠ k → W m = W' m)
    (hdet : W.det ≠ 0) (hdet' : W'.det ≠ 0)
    (hstat : ∀ m, (W' * U * W'ᴴ) m k = if m = k then 1 else 0) :
    ((W' * U * W'ᴴ) k k).re - 2 * log ‖W'.det‖ ≤ ((W * U * Wᴴ) k k).re - 2 * log ‖W.det‖ := by
  set G := W' * U * W'ᴴ with hGdef
  have hG : PSD G := psd_conj U W' hU
  set v : n → ℂ := W k ᵥ* W'⁻¹ with hv
  have hinv : W'⁻¹ * W' = 1 := Matrix.nonsing_inv_mul _ (Ne.isUnit hdet')
  have hwk : W k = v ᵥ* W' := by rw [hv, vecMul_vecMul, hinv, vecMul_one]
  have hW : W = W'.updateRow k (∑ j, v j • W' j) := by
    ext m j
    by_cases h : m = k
    · subst h
      rw [updateRow_self, hwk]
      simp [vecMul, dotProduct, Finset.sum_apply]
    · rw [updateRow_ne h, hrow m h]
  have hd : W.det = v k * W'.det := by
    rw [hW, det_updateRow_sum]; simp
  have hvk : v k ≠ 0 := by
    intro h; apply hdet; rw [hd, h, zero_mul]
  have hquad : (W * U * Wᴴ) k k = v ⬝ᵥ (G *ᵥ star v) := by
    rw [entry, hwk, hGdef, star_vecMul, ← mulVec_mulVec, ← mulVec_mulVec, dotProduct_mulVec v W']
  have hq := quad_ge G hG k hstat v
  rw [hquad, hd, norm_mul, log_mul (norm_ne_zero_iff.mpr hvk) (norm_ne_zero_iff.mpr hdet')]
  have hkk : (G k k).re = 1 := by rw [hstat k]; simp
  rw [hkk]
  have hl := log_le_sub_one_of_pos (show 0 < ‖v k‖ ^ 2 by positivity)
  rw [log_pow] at hl
  push_cast at hl
  linarith

/-- one source-steering update W' = (1 - v e_kᵀ) W: the other rows become weighted-orthogonal to row k, row k has unit weighted power -/
theorem iss_step (W : Matrix n n ℂ) (U : n → Matrix n n ℂ) (hU : ∀ m, PSD (U m)) (k : n) (v : n → ℂ) (s : ℝ)
    (hs : 0 < s) (hvk : 1 - v k = s) (hdet : W.det ≠ 0)
    (W' : Matrix n n ℂ) (hW' : ∀ m, W' m = W m - v m • W k)
    (horth : ∀ m, m ≠ k → (W' * U m * W'ᴴ) m k = 0)
    (hunit : (W' * U k * W'ᴴ) k k = 1) :
    ∑ m, ((W' * U m * W'ᴴ) m m).re - 2 * log ‖W'.det‖ ≤ ∑ m, ((W * U m * Wᴴ) m m).re - 2 * log ‖W.det‖ := by
  have hk : W' k = (s : ℂ) • W k := by
    rw [hW' k, ← hvk, sub_smul, one_smul]
  have hsne : (s : ℂ) ≠ 0 := by exact_mod_cast hs.ne'
  have hfac : W' = (1 - vecMulVec v (Pi.single k 1)) * W := by
    ext m j
    rw [hW' m, Matrix.sub_mul, Matrix.one_mul]
    simp [vecMulVec, Matrix.mul_apply, Pi.single_apply]
  have hd : W'.det = s * W.det := by
    rw [hfac, det_mul]
    congr 1
    have : (1 - vecMulVec v (Pi.single k 1) : Matrix n n ℂ)
        = 1 + replicateCol Unit (-v) * replicateRow Unit (Pi.single k (1 : ℂ)) := by
      ext i j
      simp [vecMulVec, Matrix.mul_apply, sub_eq_add_neg]
    rw [this, det_one_add_replicateCol_mul_replicateRow]
    simp [← hvk, sub_eq_add_neg]
  have hrest : ∀ m, m ≠ k → ((W' * U m * W'ᴴ) m m).re ≤ ((W * U m * Wᴴ) m m).re := by
    intro m hm
    have hwm : W m = W' m + v m • W k := by rw [hW' m]; simp
    have o1 : W' m ⬝ᵥ (U m *ᵥ star (W k)) = 0 := by
      have := horth m hm
      rw [entry, hk, star_smul, mulVec_smul, dotProduct_smul] at this
      simpa [hs.ne'] using this
    have o2 : W k ⬝ᵥ (U m *ᵥ star (W' m)) = 0 := by
      rw [← form_star (U m) (hU m).1, o1, star_zero]
    have hp := (hU m).2 (W k)
    have e : W m ⬝ᵥ (U m *ᵥ star (W m))
        = W' m ⬝ᵥ (U m *ᵥ star (W' m)) + (v m * star (v m)) * (W k ⬝ᵥ (U m *ᵥ star (W k))) := by
      rw [hwm, star_add, star_smul, mulVec_add, mulVec_smul, add_dotProduct, dotProduct_add, dotProduct_add]
      simp only [smul_dotProduct, dotProduct_smul, o1, o2, smul_eq_mul]
      ring
    rw [entry, entry, e, Complex.add_re]
    have him : (v m * star (v m)).im = 0 := by
      rw [Complex.star_def, Complex.mul_conj]; simp
    rw [Complex.mul_re, him, mul_star_re]
    nlinarith [sq_nonneg ‖v m‖]
  set t : ℝ := ((W * U k * Wᴴ) k k).re with ht
  have htk : s ^ 2 * t = 1 := by
    have h := hunit
    rw [entry, hk, star_smul, mulVec_smul, dotProduct_smul, smul_dotProduct] at h
    have h2 := congrArg Complex.re h
    rw [ht, entry]
    simp at h2
    nlinarith [h2]
  have htpos : 0 < t := by
    by_contra hcon
    push Not at hcon
    have := mul_nonpos_of_nonneg_of_nonpos (sq_nonneg s) hcon
    linarith
  have hlog : 1 - 2 * log s ≤ t := by
    have hl := log_le_sub_one_of_pos htpos
    have h0 : log (s ^ 2 * t) = 0 := by rw [htk, log_one]
    rw [log_mul (by positivity) htpos.ne', log_pow] at h0
    push_cast at h0
    linarith
  have hsum : ∑ m, ((W' * U m * W'ᴴ) m m).re ≤ ∑ m, ((W * U m * Wᴴ) m m).re - t + 1 := by
    rw [← Finset.add_sum_erase _ _ (mem_univ k), ← Finset.add_sum_erase univ (fun m => ((W * U m * Wᴴ) m m).re) (mem_univ k)]
    have : ∑ m ∈ univ.erase k, ((W' * U m * W'ᴴ) m m).re ≤ ∑ m ∈ univ.erase k, ((W * U m * Wᴴ) m m).re :=
      sum_le_sum fun m hm => hrest m (ne_of_mem_erase hm)
    rw [hunit]
    simp only [Complex.one_re]
    linarith
  rw [hd, norm_mul, Complex.norm_real, norm_eq_abs, abs_of_pos hs, log_mul hs.ne' (norm_ne_zero_iff.mpr hdet)]
  linarith

/-- scalar core of the pairwise updates -/
lemma pair_scalar (a b c d l1 l2 D : ℝ) (h1 : 0 < l1) (h12 : l1 ≤ l2) 
    (hD : 0 < D) (hDle : D ≤ a * d + b * c) :
    2 + 2 * log D + log l1 ≤ l1 * a ^ 2 + l2 * b ^ 2 + c ^ 2 + d ^ 2 := by
  set s := sqrt l1 with hs
  have hs0 : 0 < s := sqrt_pos.mpr h1
  have hs2 : s ^ 2 = l1 := sq_sqrt h1.le
  have hl := log_le_sub_one_of_pos (mul_pos hs0 hD)
  rw [log_mul hs0.ne' hD.ne'] at hl
  have hls : log l1 = 2 * log s := by rw [← hs2, log_pow]; norm_num
  have h3 : s * D ≤ s * (a * d + b * c) := mul_le_mul_of_nonneg_left hDle hs0.le
  have h4 : 2 * (s * (a * d)) ≤ l1 * a ^ 2 + d ^ 2 := by rw [← hs2]; nlinarith [sq_nonneg (s * a - d)]
  have h5 : 2 * (s * (b * c)) ≤ l2 * b ^ 2 + c ^ 2 := by
    have : l1 * b ^ 2 ≤ l2 * b ^ 2 := mul_le_mul_of_nonneg_right h12 (sq_nonneg b)
    rw [← hs2] at this; nlinarith [sq_nonneg (s * b - c)]
  rw [hls]; nlinarith
variable {m : Type*} [Fintype m] [DecidableEq m]

/-- selector of the pair -/
def pairE (m : Type*) : Matrix (Fin 2 ⊕ m) (Fin 2) ℂ := Matrix.fromRows 1 0

lemma form_ge (U : Matrix n n ℂ) (hU : PSD U) (x y : n → ℂ) :
    2 * (x ⬝ᵥ (U *ᵥ star y)).re - (y ⬝ᵥ (U *ᵥ star y)).re ≤ (x ⬝ᵥ (U *ᵥ star x)).re := by
  have h := hU.2 (x - y)
  rw [star_sub, mulVec_sub, dotProduct_sub, sub_dotProduct, sub_dotProduct] at h
  have e : (y ⬝ᵥ (U *ᵥ star x)).re = (x ⬝ᵥ (U *ᵥ star y)).re := by
    rw [← form_star U hU.1, Complex.star_def, Complex.conj_re]
  simp only [Complex.sub_re] at h
  linarith

lemma det2_le (Z : Matrix (Fin 2) (Fin 2) ℂ) : ‖Z.det‖ ≤ ‖Z 0 1‖ * ‖Z 1 0‖ + ‖Z 0 0‖ * ‖Z 1 1‖ := by
  rw [det_fin_two]
  have := norm_sub_le (Z 0 0 * Z 1 1) (Z 0 1 * Z 1 0)
  rw [norm_mul, norm_mul] at this
  linarith

lemma det_ne_of_congr (Z G : Matrix (Fin 2) (Fin 2) ℂ) (h : Zᴴ * G * Z = 1) : Z.det ≠ 0 := by
  intro h0
  have := congrArg Matrix.det h
  rw [det_mul, h0, mul_zero, det_one] at this
  exact zero_ne_one this

/-- lower bound on the quadratic form of the row that plays coordinate `a` of the pair -/
lemma pair_row_ge (W U : Matrix (Fin 2 ⊕ m) (Fin 2 ⊕ m) ℂ) (hU : PSD U) (P : Matrix (Fin 2 ⊕ m) (Fin 2) ℂ)
    (hP : W * U * P = pairE m) (Z : Matrix (Fin 2) (Fin 2) ℂ) (μ : Fin 2 → ℝ) (hμ : ∀ a, 0 < μ a)
    (hZ : Zᴴ * (Pᴴ * U * P) * Z = diagonal (fun a => (μ a : ℂ))) (a : Fin 2) :
    ∑ b, ‖Z a b‖ ^ 2 / μ b ≤ ((W * U * Wᴴ) (Sum.inl a) (Sum.inl a)).re := by
  set t : Fin 2 → ℂ := fun b => star (Z a b) / μ b with ht
  set h : Fin 2 → ℂ := Z *ᵥ t with hh
  have key := form_ge U hU (W (Sum.inl a)) (star (P *ᵥ h))
  rw [star_star] at key
  have e1 : W (Sum.inl a) ⬝ᵥ (U *ᵥ (P *ᵥ h)) = ∑ b, ((‖Z a b‖ ^ 2 / μ b : ℝ) : ℂ) := by
    have h1 : ((W * U * P) *ᵥ h) (Sum.inl a) = W (Sum.inl a) ⬝ᵥ (U *ᵥ (P *ᵥ h)) := by
      rw [← mulVec_mulVec, ← mulVec_mulVec]; rfl
    rw [← h1, hP]
    have h2 : (pairE m *ᵥ h) (Sum.inl a) = h a := by
      simp [pairE, Matrix.fromRows_mulVec]
    rw [h2, hh]
    simp only [mulVec, dotProduct, ht]
    apply sum_congr rfl
    intro b _
    rw [mul_div_assoc', Complex.star_def, Complex.mul_conj, Complex.normSq_eq_norm_sq]
    push_cast; rfl
  have e2 : star (P *ᵥ h) ⬝ᵥ (U *ᵥ (P *ᵥ h)) = ∑ b, ((‖Z a b‖ ^ 2 / μ b : ℝ) : ℂ) := by
    have h1 : star (P *ᵥ h) ⬝ᵥ (U *ᵥ (P *ᵥ h)) = star t ⬝ᵥ ((Zᴴ * (Pᴴ * U * P) * Z) *ᵥ t) := by
      rw [hh]
      simp only [star_mulVec, ← mulVec_mulVec, dotProduct_mulVec, Matrix.mul_assoc, vecMul_vecMul]
    rw [h1, hZ]
    simp only [mulVec_diagonal, dotProduct, ht, Pi.star_apply]
    apply sum_congr rfl
    intro b _
    have hb : (μ b : ℂ) ≠ 0 := by exact_mod_cast (hμ b).ne'
    have : star (star (Z a b) / (μ b : ℂ)) * ((μ b : ℂ) * (star (Z a b) / (μ b : ℂ))) = Z a b * star (Z a b) / μ b := by
      rw [star_div₀, star_star, Complex.star_def, Complex.conj_ofReal]
      field_simp
    rw [this, Complex.star_def, Complex.mul_conj, Complex.normSq_eq_norm_sq]
    push_cast; rfl
  rw [e1, e2, ← Complex.ofReal_sum, Complex.ofReal_re] at key
  rw [entry]
  linarith

lemma mul_from (M : Matrix (Fin 2) (Fin 2 ⊕ m) ℂ) (a b : Fin 2) :
    (M * pairE m) a b = M a (Sum.inl b) := by
  rw [Matrix.mul_apply, Fintype.sum_sum_type]
  simp [pairE, Matrix.one_apply]

lemma col_form (P : Matrix (Fin 2 ⊕ m) (Fin 2) ℂ) (Z : Matrix (Fin 2) (Fin 2) ℂ) (U : Matrix (Fin 2 ⊕ m) (Fin 2 ⊕ m) ℂ) (b : Fin 2) :
    star (fun j => (P * Z) j b) ⬝ᵥ (U *ᵥ fun j => (P * Z) j b) = (Zᴴ * (Pᴴ * U * P) * Z) b b := by
  have : Zᴴ * (Pᴴ * U * P) * Z = (P * Z)ᴴ * U * (P * Z) := by
    rw [conjTranspose_mul]; simp only [Matrix.mul_assoc]
  rw [this]
  generalize P * Z = X
  rw [Matrix.mul_assoc, Matrix.mul_apply]
  rfl

/-- pairwise iterative projection: the rows built from the generalized eigenvectors minimise the auxiliary function of the pair -/
theorem ip2_step (W W' U1 U2 : Matrix (Fin 2 ⊕ m) (Fin 2 ⊕ m) ℂ) (hU1 : PSD U1) (hU2 : PSD U2) (hdet : W.det ≠ 0)
    (P1 P2 : Matrix (Fin 2 ⊕ m) (Fin 2) ℂ) (hP1 : W * U1 * P1 = pairE m) (hP2 : W * U2 * P2 = pairE m)
    (Z : Matrix (Fin 2) (Fin 2) ℂ) (μ : Fin 2 → ℝ) (h0 : 0 < μ 0) (h01 : μ 0 ≤ μ 1)
    (hZ1 : Zᴴ * (P1ᴴ * U1 * P1) * Z = diagonal (fun a => (μ a : ℂ))) (hZ2 : Zᴴ * (P2ᴴ * U2 * P2) * Z = 1)
    (hout : ∀ i, W' (Sum.inr i) = W (Sum.inr i))
    (s : ℝ) (hs : 0 < s) (hs2 : s ^ 2 = μ 1)
    (hrow1 : ∀ j, W' (Sum.inl 0) j = star ((P1 * Z) j 1) / s) (hrow2 : ∀ j, W' (Sum.inl 1) j = star ((P2 * Z) j 0)) :
    ((W' * U1 * W'ᴴ) (Sum.inl 0) (Sum.inl 0)).re + ((W' * U2 * W'ᴴ) (Sum.inl 1) (Sum.inl 1)).re - 2 * log ‖W'.det‖
      ≤ ((W * U1 * Wᴴ) (Sum.inl 0) (Sum.inl 0)).re + ((W * U2 * Wᴴ) (Sum.inl 1) (Sum.inl 1)).re - 2 * log ‖W.det‖ := by
  have hμ : ∀ a, 0 < μ a := fun a => by fin_cases a <;> simp <;> linarith
  have g1 := pair_row_ge W U1 hU1 P1 hP1 Z μ hμ hZ1 0
  have g2 := pair_row_ge W U2 hU2 P2 hP2 Z (fun _ => 1) (fun _ => one_pos) (by rw [hZ2]; simp) 1
  rw [Fin.sum_univ_two] at g1 g2
  have hZdet := det_ne_of_congr Z _ hZ2
  have hsc : (s : ℂ) ≠ 0 := by exact_mod_cast hs.ne'
  have hWi : W⁻¹ * W = 1 := Matrix.nonsing_inv_mul _ (Ne.isUnit hdet)
  have hWi' : W * W⁻¹ = 1 := Matrix.mul_nonsing_inv _ (Ne.isUnit hdet)
  -- coordinates of the new rows over the old ones
  have f1 : P1ᴴ * W⁻¹ * pairE m = P1ᴴ * U1 * P1 := by
    calc P1ᴴ * W⁻¹ * pairE m = P1ᴴ * (W⁻¹ * W) * (U1 * P1) := by
          rw [← hP1]; simp only [Matrix.mul_assoc]
      _ = P1ᴴ * U1 * P1 := by rw [hWi, Matrix.mul_one, Matrix.mul_assoc]
  have f2 : P2ᴴ * W⁻¹ * pairE m = P2ᴴ * U2 * P2 := by
    calc P2ᴴ * W⁻¹ * pairE m = P2ᴴ * (W⁻¹ * W) * (U2 * P2) := by
          rw [← hP2]; simp only [Matrix.mul_assoc]
      _ = P2ᴴ * U2 * P2 := by rw [hWi, Matrix.mul_one, Matrix.mul_assoc]
  set Q : Matrix (Fin 2) (Fin 2) ℂ := Matrix.of (fun a b => (W' * W⁻¹) (Sum.inl a) (Sum.inl b)) with hQ
  have hblock : W' * W⁻¹ = Matrix.fromBlocks Q (Matrix.of fun a i => (W' * W⁻¹) (Sum.inl a) (Sum.inr i)) 0 1 := by
    ext i j
    rcases i with a | i
    · rcases j with b | j <;> simp [hQ]
    · have : (W' * W⁻¹) (Sum.inr i) j = (W * W⁻¹) (Sum.inr i) j := by
        simp only [Matrix.mul_apply, hout i]
      rw [this, hWi']
      rcases j with b | j <;> simp [Matrix.one_apply]
  have hdetW' : W'.det = Q.det * W.det := by
    have h1 : W' = (W' * W⁻¹) * W := by rw [Matrix.mul_assoc, hWi, Matrix.mul_one]
    rw [h1, det_mul, hblock, det_fromBlocks_zero₂₁, det_one, mul_one]
  have q1 : ∀ b, Q 0 b = (Zᴴ * (P1ᴴ * U1 * P1)) 1 b / s := by
    intro b
    rw [← f1]
    have : Zᴴ * (P1ᴴ * W⁻¹ * pairE m) = (P1 * Z)ᴴ * W⁻¹ * pairE m := by
      rw [conjTranspose_mul]; simp only [Matrix.mul_assoc]
    rw [this, mul_from]
    simp only [hQ, Matrix.of_apply, Matrix.mul_apply, conjTranspose_apply, hrow1, sum_div]
    apply sum_congr rfl; intro j _
    ring
  have q2 : ∀ b, Q 1 b = (Zᴴ * (P2ᴴ * U2 * P2)) 0 b := by
    intro b
    rw [← f2]
    have : Zᴴ * (P2ᴴ * W⁻¹ * pairE m) = (P2 * Z)ᴴ * W⁻¹ * pairE m := by
      rw [conjTranspose_mul]; simp only [Matrix.mul_assoc]
    rw [this, mul_from]
    simp only [hQ, Matrix.of_apply, Matrix.mul_apply, conjTranspose_apply, hrow2]
  have hQZ : Q * Z = !![0, (s : ℂ); 1, 0] := by
    have r1 : ∀ b, (Q * Z) 0 b = (Zᴴ * (P1ᴴ * U1 * P1) * Z) 1 b / s := by
      intro b
      rw [Matrix.mul_apply, Matrix.mul_apply, sum_div]
      apply sum_congr rfl; intro a _
      rw [q1 a]; ring
    have r2 : ∀ b, (Q * Z) 1 b = (Zᴴ * (P2ᴴ * U2 * P2) * Z) 0 b := by
      intro b
      rw [Matrix.mul_apply, Matrix.mul_apply]
      apply sum_congr rfl; intro a _
      rw [q2 a]
    rw [hZ1] at r1
    rw [hZ2] at r2
    have hss : (μ 1 : ℂ) / s = s := by
      rw [← hs2]; push_cast; field_simp
    ext a b
    fin_cases a <;> fin_cases b <;> simp [r1, r2, hss]
  have hdets : ‖Q.det‖ * ‖Z.det‖ = s := by
    rw [← norm_mul, ← det_mul, hQZ, det_fin_two]
    simp [abs_of_pos hs]
  have n1 : ((W' * U1 * W'ᴴ) (Sum.inl 0) (Sum.inl 0)).re = 1 := by
    have hr : W' (Sum.inl 0) = star (fun j => (P1 * Z) j 1 / (s : ℂ)) := by
      ext j; rw [hrow1]; simp [Complex.conj_ofReal]
    rw [entry, hr, star_star]
    have hv : (fun j => (P1 * Z) j 1 / (s : ℂ)) = (s : ℂ)⁻¹ • (fun j => (P1 * Z) j 1) := by
      ext j; simp [div_eq_inv_mul]
    rw [hv, star_smul, mulVec_smul, smul_dotProduct, dotProduct_smul, col_form P1 Z U1 1, hZ1]
    simp only [diagonal_apply_eq, smul_eq_mul]
    rw [← hs2]
    simp only [Complex.star_def, map_inv₀, Complex.conj_ofReal]
    have : ((s : ℂ)⁻¹ * ((s : ℂ)⁻¹ * ((s ^ 2 : ℝ) : ℂ))) = 1 := by push_cast; field_simp
    rw [this]; simp
  have n2 : ((W' * U2 * W'ᴴ) (Sum.inl 1) (Sum.inl 1)).re = 1 := by
    have hr : W' (Sum.inl 1) = star (fun j => (P2 * Z) j 0) := by
      ext j; rw [hrow2]; simp
    rw [entry, hr, star_star, col_form P2 Z U2 0, hZ2]
    simp
  have hD : 0 < ‖Z.det‖ := norm_pos_iff.mpr hZdet
  have sc := pair_scalar ‖Z 0 1‖ ‖Z 0 0‖ ‖Z 1 1‖ ‖Z 1 0‖ (1 / μ 1) (1 / μ 0) ‖Z.det‖ (by have := hμ 1; positivity)
    (one_div_le_one_div_of_le h0 h01) hD
    (det2_le Z)
  have hQ0 : 0 < ‖Q.det‖ := by
    by_contra hcon
    push Not at hcon
    have := mul_nonpos_of_nonpos_of_nonneg hcon hD.le
    linarith
  have hlog : log ‖Q.det‖ = log s - log ‖Z.det‖ := by
    rw [← hdets, log_mul hQ0.ne' hD.ne']; ring
  have hls : log (1 / μ 1) = - 2 * log s := by
    rw [← hs2, one_div, log_inv, log_pow]; push_cast; ring
  rw [n1, n2, hdetW', norm_mul, log_mul hQ0.ne' (norm_ne_zero_iff.mpr hdet), hlog]
  rw [hls] at sc
  have e : 1 / μ 1 * ‖Z 0 1‖ ^ 2 = ‖Z 0 1‖ ^ 2 / μ 1 := by ring
  have e' : 1 / μ 0 * ‖Z 0 0‖ ^ 2 = ‖Z 0 0‖ ^ 2 / μ 0 := by ring
  rw [e, e'] at sc
  simp only [div_one] at g2
  linarith

/-- pairwise source steering: pair rows from the generalized eigenvectors of the weighted Gram matrices of the pair,
every other row made weighted-orthogonal to both rows of the pair -/
theorem iss2_step (W W' : Matrix (Fin 2 ⊕ m) (Fin 2 ⊕ m) ℂ) (U : (Fin 2 ⊕ m) → Matrix (Fin 2 ⊕ m) (Fin 2 ⊕ m) ℂ)
    (hU : ∀ a, PSD (U a)) (hdet : W.det ≠ 0)
    (Z : Matrix (Fin 2) (Fin 2) ℂ) (μ : Fin 2 → ℝ) (h0 : 0 < μ 0) (h01 : μ 0 ≤ μ 1)
    (hZ1 : Zᴴ * (W * U (Sum.inl 0) * Wᴴ).toBlocks₁₁ * Z = diagonal (fun a => (μ a : ℂ)))
    (hZ2 : Zᴴ * (W * U (Sum.inl 1) * Wᴴ).toBlocks₁₁ * Z = 1)
    (s : ℝ) (hs : 0 < s) (hs2 : s ^ 2 = μ 0) (q : m → Fin 2 → ℂ)
    (hrow1 : W' (Sum.inl 0) = ∑ b, (star (Z b 0) / s) • W (Sum.inl b))
    (hrow2 : W' (Sum.inl 1) = ∑ b, star (Z b 1) • W (Sum.inl b))
    (hout : ∀ i, W' (Sum.inr i) = W (Sum.inr i) + ∑ b, q i b • W (Sum.inl b))
    (horth : ∀ i b, W' (Sum.inr i) ⬝ᵥ (U (Sum.inr i) *ᵥ star (W (Sum.inl b))) = 0) :
    ∑ a, ((W' * U a * W'ᴴ) a a).re - 2 * log ‖W'.det‖ ≤ ∑ a, ((W * U a * Wᴴ) a a).re - 2 * log ‖W.det‖ := by
  have hsc : (s : ℂ) ≠ 0 := by exact_mod_cast hs.ne'
  have hZdet := det_ne_of_congr Z _ hZ2
  -- determinant
  let C : Matrix (Fin 2) (Fin 2) ℂ := Matrix.of ![fun b => star (Z b 0) / s, fun b => star (Z b 1)]
  have hfac : W' = Matrix.fromBlocks C 0 (Matrix.of q) 1 * W := by
    ext i j
    rw [Matrix.mul_apply, Fintype.sum_sum_type]
    rcases i with a | i
    · fin_cases a
      · simp [hrow1, C]
      · simp [hrow2, C]
    · simp [hout, Matrix.one_apply, add_comm]
  have hCdet : ‖C.det‖ = ‖Z.det‖ / s := by
    rw [det_fin_two, det_fin_two]
    simp only [C, Matrix.of_apply, Matrix.cons_val_zero, Matrix.cons_val_one]
    have : star (Z 0 0) / (s : ℂ) * star (Z 1 1) - star (Z 1 0) / s * star (Z 0 1)
        = star (Z 0 0 * Z 1 1 - Z 0 1 * Z 1 0) / s := by
      simp only [star_sub, star_mul']; ring
    rw [this, norm_div, norm_star, Complex.norm_real, norm_eq_abs, abs_of_pos hs]
  have hd : ‖W'.det‖ = ‖Z.det‖ / s * ‖W.det‖ := by
    rw [hfac, det_mul, norm_mul, det_fromBlocks_zero₁₂, det_one, mul_one, hCdet]
  -- the pair
  have pf : ∀ (V : Matrix (Fin 2 ⊕ m) (Fin 2 ⊕ m) ℂ) (t : Fin 2), (∑ b, star (Z b t) • W (Sum.inl b)) ⬝ᵥ (V *ᵥ star (∑ b, star (Z b t) • W (Sum.inl b)))
      = (Zᴴ * (W * V * Wᴴ).toBlocks₁₁ * Z) t t := by
    intro V t
    have e : ∀ a b : Fin 2, (W * V * Wᴴ).toBlocks₁₁ a b = W (Sum.inl a) ⬝ᵥ (V *ᵥ star (W (Sum.inl b))) := by
      intro a b; rw [← entry]; rfl
    simp only [Matrix.mul_apply, Fin.sum_univ_two, e, conjTranspose_apply, star_add, star_smul, star_star, mulVec_add, mulVec_smul,
      add_dotProduct, dotProduct_add, smul_dotProduct, dotProduct_smul, smul_eq_mul]
    ring
  have n1 : ((W' * U (Sum.inl 0) * W'ᴴ) (Sum.inl 0) (Sum.inl 0)).re = 1 := by
    have hr : W' (Sum.inl 0) = (s : ℂ)⁻¹ • ∑ b, star (Z b 0) • W (Sum.inl b) := by
      rw [hrow1, smul_sum]; apply sum_congr rfl; intro b _
      rw [smul_smul]; congr 1; field_simp
    rw [entry, hr, star_smul, mulVec_smul, smul_dotProduct, dotProduct_smul, pf, hZ1]
    simp only [diagonal_apply_eq, smul_eq_mul]
    rw [← hs2]
    simp only [Complex.star_def, map_inv₀, Complex.conj_ofReal]
    have : ((s : ℂ)⁻¹ * ((s : ℂ)⁻¹ * ((s ^ 2 : ℝ) : ℂ))) = 1 := by push_cast; field_simp
    rw [this]; simp
  have n2 : ((W' * U (Sum.inl 1) * W'ᴴ) (Sum.inl 1) (Sum.inl 1)).re = 1 := by
    rw [entry, hrow2, pf, hZ2]; simp
  -- the rows outside the pair
  have hrest : ∀ i, ((W' * U (Sum.inr i) * W'ᴴ) (Sum.inr i) (Sum.inr i)).re ≤ ((W * U (Sum.inr i) * Wᴴ) (Sum.inr i) (Sum.inr i)).re := by
    intro i
    rw [entry, entry]
    set d : (Fin 2 ⊕ m) → ℂ := ∑ b, q i b • W (Sum.inl b) with hdd
    have hw : W (Sum.inr i) = W' (Sum.inr i) - d := by rw [hout i, hdd, add_sub_cancel_right]
    have o1 : W' (Sum.inr i) ⬝ᵥ (U (Sum.inr i) *ᵥ star d) = 0 := by
      rw [hdd, Fin.sum_univ_two, star_add, star_smul, star_smul, mulVec_add, mulVec_smul, mulVec_smul, dotProduct_add, dotProduct_smul, dotProduct_smul,
        horth, horth]; simp
    have o2 : d ⬝ᵥ (U (Sum.inr i) *ᵥ star (W' (Sum.inr i))) = 0 := by
      rw [← form_star (U (Sum.inr i)) (hU _).1, o1, star_zero]
    have hp := (hU (Sum.inr i)).2 d
    rw [hw, star_sub, mulVec_sub, dotProduct_sub, sub_dotProduct, sub_dotProduct, o1, o2]
    simp only [Complex.sub_re, Complex.zero_re]
    linarith
  -- the old pair
  set Y := Z⁻¹ with hY
  have hZY : Z * Y = 1 := Matrix.mul_nonsing_inv _ (Ne.isUnit hZdet)
  have hG : ∀ (G D : Matrix (Fin 2) (Fin 2) ℂ), Zᴴ * G * Z = D → G = Yᴴ * D * Y := by
    intro G D h
    rw [← h]
    have : Yᴴ * Zᴴ = 1 := by rw [← conjTranspose_mul, hZY, conjTranspose_one]
    calc G = (Yᴴ * Zᴴ) * G * (Z * Y) := by rw [this, hZY, Matrix.one_mul, Matrix.mul_one]
      _ = _ := by simp only [Matrix.mul_assoc]
  have g1 : ((W * U (Sum.inl 0) * Wᴴ) (Sum.inl 0) (Sum.inl 0)).re = μ 0 * ‖Y 0 0‖ ^ 2 + μ 1 * ‖Y 1 0‖ ^ 2 := by
    have := congrFun (congrFun (hG _ _ hZ1) 0) 0
    have e : (W * U (Sum.inl 0) * Wᴴ).toBlocks₁₁ 0 0 = (W * U (Sum.inl 0) * Wᴴ) (Sum.inl 0) (Sum.inl 0) := rfl
    rw [← e, this, ← mul_star_re, ← mul_star_re]
    simp [Matrix.mul_apply, Fin.sum_univ_two, diagonal_apply]
    ring
  have g2 : ((W * U (Sum.inl 1) * Wᴴ) (Sum.inl 1) (Sum.inl 1)).re = ‖Y 0 1‖ ^ 2 + ‖Y 1 1‖ ^ 2 := by
    have := congrFun (congrFun (hG _ _ hZ2) 1) 1
    have e : (W * U (Sum.inl 1) * Wᴴ).toBlocks₁₁ 1 1 = (W * U (Sum.inl 1) * Wᴴ) (Sum.inl 1) (Sum.inl 1) := rfl
    rw [← e, this, ← mul_star_re, ← mul_star_re]
    simp [Matrix.mul_apply, Fin.sum_univ_two]
  have hYZ : ‖Y.det‖ * ‖Z.det‖ = 1 := by
    rw [← norm_mul, ← det_mul, hY, Matrix.nonsing_inv_mul _ (Ne.isUnit hZdet), det_one, norm_one]
  have hD : 0 < ‖Z.det‖ := norm_pos_iff.mpr hZdet
  have hDY : 0 < ‖Y.det‖ := by
    by_contra hcon
    push Not at hcon
    have := mul_nonpos_of_nonpos_of_nonneg hcon hD.le
    linarith
  have hYle : ‖Y.det‖ ≤ ‖Y 0 0‖ * ‖Y 1 1‖ + ‖Y 1 0‖ * ‖Y 0 1‖ := by
    have := det2_le Y; nlinarith
  have sc := pair_scalar ‖Y 0 0‖ ‖Y 1 0‖ ‖Y 0 1‖ ‖Y 1 1‖ (μ 0) (μ 1) ‖Y.det‖ h0 h01 hDY hYle
  have hlY : log ‖Y.det‖ = - log ‖Z.det‖ := by
    have := congrArg log hYZ
    rw [log_mul hDY.ne' hD.ne', log_one] at this; linarith
  have hls : log (μ 0) = 2 * log s := by rw [← hs2, log_pow]; norm_num
  have hWd : 0 < ‖W.det‖ := norm_pos_iff.mpr hdet
  rw [hd, log_mul (div_pos hD hs).ne' hWd.ne', log_div hD.ne' hs.ne']
  simp only [Fintype.sum_sum_type, Fin.sum_univ_two]
  rw [n1, n2, g1, g2]
  have hsum := sum_le_sum (s := univ) fun i (_ : i ∈ univ) => hrest i
  rw [hlY, hls] at sc
  linarith

end Descent
