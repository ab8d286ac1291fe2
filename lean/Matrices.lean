import Mathlib

/-!
Descent of the matrix-valued models: positive semidefinite (tensor) factorisation, expectation maximisation of the mixture model,
and blockwise coordinate descent.
-/

open Finset Real Matrix
open scoped ComplexOrder MatrixOrder
namespace Descent
set_option linter.unusedSectionVars false
variable {n : Type*} [Fintype n] [DecidableEq n]

/-- log det is below its tangent: log det A ≤ log det B + tr(B⁻¹ A) - n -/
theorem logdet_trace (A B : Matrix n n ℂ) (hA : A.PosDef) (hB : B.PosDef) :
    log A.det.re ≤ log B.det.re + (B⁻¹ * A).trace.re - Fintype.card n := by
  classical
  obtain ⟨C, hC⟩ : ∃ C : Matrix n n ℂ, B⁻¹ = Cᴴ * C := by
    have h := hB.inv.posSemidef
    refine ⟨CFC.sqrt B⁻¹, ?_⟩
    have h0 : 0 ≤ B⁻¹ := h.nonneg
    have hs : (CFC.sqrt B⁻¹)ᴴ = CFC.sqrt B⁻¹ := (CFC.sqrt_nonneg B⁻¹).isSelfAdjoint
    rw [hs, CFC.sqrt_mul_sqrt_self B⁻¹ h0]
  have hBd : B.det ≠ 0 := hB.det_pos.ne'
  have hCd : C.det ≠ 0 := by
    intro h
    have := congrArg Matrix.det hC
    rw [det_mul, h, mul_zero, det_nonsing_inv, Ring.inverse_eq_inv'] at this
    exact hBd (inv_eq_zero.mp this)
  set S := C * A * Cᴴ with hS
  have hSp : S.PosDef := by
    refine hA.mul_mul_conjTranspose_same ?_
    have := (Matrix.isUnit_iff_isUnit_det C).mpr (Ne.isUnit hCd)
    exact Matrix.vecMul_injective_of_isUnit this
  have htr : (B⁻¹ * A).trace = S.trace := by
    rw [hC, hS, Matrix.mul_assoc, trace_mul_comm, Matrix.mul_assoc]
  have hdet : S.det * B.det = A.det := by
    have h1 : (Cᴴ * C).det * B.det = 1 := by
      rw [← hC, ← det_mul, nonsing_inv_mul _ (Ne.isUnit hBd), det_one]
    rw [hS, det_mul, det_mul]
    rw [det_mul] at h1
    linear_combination A.det * h1
  have hsd := hSp.1.det_eq_prod_eigenvalues
  have hst := hSp.1.trace_eq_sum_eigenvalues
  have hpos := hSp.eigenvalues_pos
  set l := hSp.1.eigenvalues
  have hsd' : S.det = ((∏ i, l i : ℝ) : ℂ) := by rw [hsd]; push_cast; rfl
  have hst' : S.trace.re = ∑ i, l i := by rw [hst]; simp
  have hA2 : A.det.re = (∏ i, l i) * B.det.re := by
    rw [← hdet, hsd', Complex.re_ofReal_mul]
  have hBr : 0 < B.det.re := (Complex.pos_iff.mp hB.det_pos).1
  rw [hA2, log_mul (prod_pos fun i _ => hpos i).ne' hBr.ne', log_prod (fun i _ => (hpos i).ne'), htr, hst']
  have : ∑ i, log (l i) ≤ ∑ i, (l i - 1) := sum_le_sum fun i _ => log_le_sub_one_of_pos (hpos i)
  rw [sum_sub_distrib] at this
  simp at this
  linarith

/-- real part of the trace -/
noncomputable def rtr (A : Matrix n n ℂ) : ℝ := A.trace.re

lemma rtr_add (A B : Matrix n n ℂ) : rtr (A + B) = rtr A + rtr B := by simp [rtr]
lemma rtr_sub (A B : Matrix n n ℂ) : rtr (A - B) = rtr A - rtr B := by simp [rtr]
lemma rtr_comm (A B : Matrix n n ℂ) : rtr (A * B) = rtr (B * A) := by rw [rtr, trace_mul_comm, rtr]
lemma rtr_conj (A : Matrix n n ℂ) : rtr Aᴴ = rtr A := by simp [rtr, trace_conjTranspose]
lemma rtr_smul (a : ℝ) (A : Matrix n n ℂ) : rtr ((a : ℂ) • A) = a * rtr A := by simp [rtr]
lemma rtr_sum {K : Type*} (s : Finset K) (A : K → Matrix n n ℂ) : rtr (∑ k ∈ s, A k) = ∑ k ∈ s, rtr (A k) := by
  simp [rtr, trace_sum]
lemma rtr_psd (A : Matrix n n ℂ) (hA : A.PosSemidef) : 0 ≤ rtr A := (Complex.nonneg_iff.mp hA.trace_nonneg).1

/-- the trace of the product of two positive semidefinite matrices is nonnegative -/
lemma rtr_psd_mul (P S : Matrix n n ℂ) (hP : P.PosSemidef) (hS : S.PosSemidef) : 0 ≤ rtr (P * S) := by
  have h0 : (0 : Matrix n n ℂ) ≤ P := hP.nonneg
  have hs : (CFC.sqrt P)ᴴ = CFC.sqrt P := (CFC.sqrt_nonneg P).isSelfAdjoint
  have h := hS.mul_mul_conjTranspose_same (CFC.sqrt P)
  have e : rtr (P * S) = rtr (CFC.sqrt P * S * (CFC.sqrt P)ᴴ) := by
    rw [hs, rtr_comm (CFC.sqrt P * S), ← Matrix.mul_assoc, CFC.sqrt_mul_sqrt_self P h0]
  rw [e]
  exact rtr_psd _ h

variable {K E : Type*} [Fintype K] [Fintype E]

/-- quadratic majorizer of the inverse of a sum: for A = A' B one has tr(X R'⁻¹) ≤ Σ tr(Bᴴ A R⁻¹ X R⁻¹) -/
lemma inv_major (A A' B : K → Matrix n n ℂ) (R R' X : Matrix n n ℂ) (hR : R = ∑ k, A k) (hR' : R' = ∑ k, A' k)
    (hRp : R.PosDef) (hRp' : R'.PosDef) (hX : X.PosSemidef) (hA : ∀ k, (A k).IsHermitian) (hA' : ∀ k, (A' k).PosSemidef)
    (hB : ∀ k, A' k * B k = A k) :
    rtr (X * R'⁻¹) ≤ ∑ k, rtr ((B k)ᴴ * A k * (R⁻¹ * X * R⁻¹)) := by
  have h0 : (0 : Matrix n n ℂ) ≤ X := hX.nonneg
  set Y := CFC.sqrt X with hY
  have hYh : Yᴴ = Y := (CFC.sqrt_nonneg X).isSelfAdjoint
  have hYY : Y * Y = X := CFC.sqrt_mul_sqrt_self X h0
  have hRd : IsUnit R.det := Ne.isUnit hRp.det_pos.ne'
  have hRd' : IsUnit R'.det := Ne.isUnit hRp'.det_pos.ne'
  have hRh : (R⁻¹)ᴴ = R⁻¹ := by rw [conjTranspose_nonsing_inv, hRp.1]
  have hRh' : (R'⁻¹)ᴴ = R'⁻¹ := by rw [conjTranspose_nonsing_inv, hRp'.1]
  obtain ⟨W, hW⟩ : ∃ W, W = R'⁻¹ * Y := ⟨_, rfl⟩
  obtain ⟨P, hP⟩ : ∃ P, P = R⁻¹ * Y := ⟨_, rfl⟩
  have hk : ∀ k, 0 ≤ rtr (Wᴴ * A' k * W) - 2 * rtr (Wᴴ * A k * P) + rtr ((B k)ᴴ * A k * (P * Pᴴ)) := by
    intro k
    have h := rtr_psd _ ((hA' k).conjTranspose_mul_mul_same (W - B k * P))
    have hBA : (B k)ᴴ * A' k = A k := by
      have := congrArg conjTranspose (hB k)
      rwa [conjTranspose_mul, (hA' k).1, hA k] at this
    have e : (W - B k * P)ᴴ * A' k * (W - B k * P)
        = Wᴴ * A' k * W - Wᴴ * A k * P - Pᴴ * A k * W + Pᴴ * ((B k)ᴴ * A k) * P := by
      rw [conjTranspose_sub, conjTranspose_mul (B k) P]
      have e1 : Wᴴ * A' k * (B k * P) = Wᴴ * A k * P := by rw [← hB k]; simp only [Matrix.mul_assoc]
      have e2 : Pᴴ * (B k)ᴴ * A' k * W = Pᴴ * A k * W := by rw [← hBA]; simp only [Matrix.mul_assoc]
      have e3 : Pᴴ * (B k)ᴴ * A' k * (B k * P) = Pᴴ * ((B k)ᴴ * A k) * P := by
        rw [← hB k]; simp only [Matrix.mul_assoc]
      rw [Matrix.sub_mul, Matrix.sub_mul, Matrix.mul_sub, Matrix.mul_sub, e1, e2, e3]
      abel
    rw [e, rtr_add, rtr_sub, rtr_sub] at h
    have f1 : rtr (Pᴴ * A k * W) = rtr (Wᴴ * A k * P) := by
      rw [← rtr_conj, conjTranspose_mul, conjTranspose_mul, conjTranspose_conjTranspose, hA k, ← Matrix.mul_assoc]
    have f2 : rtr (Pᴴ * ((B k)ᴴ * A k) * P) = rtr ((B k)ᴴ * A k * (P * Pᴴ)) := by
      rw [Matrix.mul_assoc, rtr_comm, Matrix.mul_assoc]
    rw [f1, f2] at h
    linarith
  have hsum := sum_nonneg fun k (_ : k ∈ univ) => hk k
  rw [sum_add_distrib, sum_sub_distrib, ← mul_sum] at hsum
  have s1 : ∑ k, rtr (Wᴴ * A' k * W) = rtr (X * R'⁻¹) := by
    rw [← rtr_sum, ← Finset.sum_mul, ← Finset.mul_sum, ← hR', hW, conjTranspose_mul, hRh', hYh]
    have : Y * R'⁻¹ * R' * (R'⁻¹ * Y) = Y * (R'⁻¹ * Y) := by
      rw [Matrix.mul_assoc Y, nonsing_inv_mul _ hRd', Matrix.mul_one]
    rw [this, rtr_comm, Matrix.mul_assoc, hYY, rtr_comm]
  have s2 : ∑ k, rtr (Wᴴ * A k * P) = rtr (X * R'⁻¹) := by
    rw [← rtr_sum, ← Finset.sum_mul, ← Finset.mul_sum, ← hR, hW, hP, conjTranspose_mul, hRh', hYh]
    have : Y * R'⁻¹ * R * (R⁻¹ * Y) = Y * R'⁻¹ * Y := by
      rw [Matrix.mul_assoc (Y * R'⁻¹), ← Matrix.mul_assoc R, mul_nonsing_inv _ hRd, Matrix.one_mul]
    rw [this, rtr_comm, ← Matrix.mul_assoc, hYY]
  have s3 : P * Pᴴ = R⁻¹ * X * R⁻¹ := by
    rw [hP, conjTranspose_mul, hRh, hYh, ← hYY]; simp only [Matrix.mul_assoc]
  rw [s1, s2, s3] at hsum
  linarith

/-- objective of a model whose covariance is a sum of positive semidefinite terms, before and after replacing every term -/
lemma psd_descent (A A' B : K → E → Matrix n n ℂ) (R R' X : E → Matrix n n ℂ) (hR : ∀ e, R e = ∑ k, A k e) (hR' : ∀ e, R' e = ∑ k, A' k e)
    (hRp : ∀ e, (R e).PosDef) (hRp' : ∀ e, (R' e).PosDef) (hX : ∀ e, (X e).PosSemidef) (hA : ∀ k e, (A k e).IsHermitian)
    (hA' : ∀ k e, (A' k e).PosSemidef) (hB : ∀ k e, A' k e * B k e = A k e) :
    ∑ e, (log (R' e).det.re + rtr (X e * (R' e)⁻¹)) ≤ ∑ e, (log (R e).det.re + rtr (X e * (R e)⁻¹))
      + ∑ k, ∑ e, (rtr ((B k e)ᴴ * A k e * ((R e)⁻¹ * X e * (R e)⁻¹)) - rtr (A k e * ((R e)⁻¹ * X e * (R e)⁻¹))
        + rtr ((R e)⁻¹ * A' k e) - rtr ((R e)⁻¹ * A k e)) := by
  rw [sum_comm, ← sum_add_distrib]
  refine sum_le_sum fun e _ => ?_
  have hRd : IsUnit (R e).det := Ne.isUnit (hRp e).det_pos.ne'
  have h1 := inv_major (A · e) (A' · e) (B · e) (R e) (R' e) (X e) (hR e) (hR' e) (hRp e) (hRp' e) (hX e) (hA · e) (hA' · e) (hB · e)
  have h2 := logdet_trace (R' e) (R e) (hRp' e) (hRp e)
  have t1 : ∑ k, rtr (A k e * ((R e)⁻¹ * X e * (R e)⁻¹)) = rtr (X e * (R e)⁻¹) := by
    rw [← rtr_sum, ← Finset.sum_mul, ← hR, ← Matrix.mul_assoc, ← Matrix.mul_assoc, mul_nonsing_inv _ hRd, Matrix.one_mul]
  have t2 : ∑ k, rtr ((R e)⁻¹ * A' k e) = ((R e)⁻¹ * R' e).trace.re := by
    rw [← rtr_sum, ← Finset.mul_sum, ← hR', rtr]
  have t3 : ∑ k, rtr ((R e)⁻¹ * A k e) = Fintype.card n := by
    rw [← rtr_sum, ← Finset.mul_sum, ← hR, nonsing_inv_mul _ hRd, rtr]; simp
  simp only [sum_sub_distrib, sum_add_distrib]
  rw [t1, t2, t3]
  linarith

/-- one multiplicative step on the nonnegative factors θ of a model R = Σ θ S -/
theorem psd_scalar_step (θ θ' : K → ℝ) (S : K → E → Matrix n n ℂ) (R R' X : E → Matrix n n ℂ)
    (hR : ∀ e, R e = ∑ k, (θ k : ℂ) • S k e) (hR' : ∀ e, R' e = ∑ k, (θ' k : ℂ) • S k e)
    (hRp : ∀ e, (R e).PosDef) (hRp' : ∀ e, (R' e).PosDef) (hX : ∀ e, (X e).PosSemidef) (hS : ∀ k e, (S k e).PosSemidef)
    (hθ : ∀ k, 0 < θ k) (hθ' : ∀ k, 0 < θ' k)
    (hupd : ∀ k, θ' k ^ 2 * ∑ e, rtr ((R e)⁻¹ * S k e) = θ k ^ 2 * ∑ e, rtr ((R e)⁻¹ * X e * (R e)⁻¹ * S k e)) :
    ∑ e, (log (R' e).det.re + rtr (X e * (R' e)⁻¹)) ≤ ∑ e, (log (R e).det.re + rtr (X e * (R e)⁻¹)) := by
  have h := psd_descent (fun k e => (θ k : ℂ) • S k e) (fun k e => (θ' k : ℂ) • S k e)
    (fun k _ => ((θ k / θ' k : ℝ) : ℂ) • (1 : Matrix n n ℂ)) R R' X hR hR' hRp hRp' hX
    (fun k e => by
      rw [IsHermitian, conjTranspose_smul, (hS k e).1]; simp)
    (fun k e => (hS k e).smul (by exact_mod_cast (hθ' k).le))
    (fun k e => by
      have := (hθ' k).ne'
      rw [Matrix.mul_smul, Matrix.mul_one, smul_smul, ← Complex.ofReal_mul]
      congr 2; field_simp)
  refine h.trans ?_
  have : ∑ k, ∑ e, (rtr ((((θ k / θ' k : ℝ) : ℂ) • (1 : Matrix n n ℂ))ᴴ * ((θ k : ℂ) • S k e) * ((R e)⁻¹ * X e * (R e)⁻¹))
        - rtr (((θ k : ℂ) • S k e) * ((R e)⁻¹ * X e * (R e)⁻¹)) + rtr ((R e)⁻¹ * ((θ' k : ℂ) • S k e)) - rtr ((R e)⁻¹ * ((θ k : ℂ) • S k e))) ≤ 0 := by
    refine sum_nonpos fun k _ => ?_
    set num := ∑ e, rtr ((R e)⁻¹ * X e * (R e)⁻¹ * S k e) with hnum
    set den := ∑ e, rtr ((R e)⁻¹ * S k e) with hden
    have hd : 0 ≤ den := sum_nonneg fun e _ => rtr_psd_mul _ _ (hRp e).inv.posSemidef (hS k e)
    have e1 : ∑ e, (rtr ((((θ k / θ' k : ℝ) : ℂ) • (1 : Matrix n n ℂ))ᴴ * ((θ k : ℂ) • S k e) * ((R e)⁻¹ * X e * (R e)⁻¹))
        - rtr (((θ k : ℂ) • S k e) * ((R e)⁻¹ * X e * (R e)⁻¹)) + rtr ((R e)⁻¹ * ((θ' k : ℂ) • S k e)) - rtr ((R e)⁻¹ * ((θ k : ℂ) • S k e)))
        = (θ k / θ' k * θ k - θ k) * num + (θ' k - θ k) * den := by
      rw [hnum, hden, mul_sum, mul_sum, ← sum_add_distrib]
      refine sum_congr rfl fun e _ => ?_
      have : (((θ k / θ' k : ℝ) : ℂ) • (1 : Matrix n n ℂ))ᴴ = ((θ k / θ' k : ℝ) : ℂ) • (1 : Matrix n n ℂ) := by
        rw [conjTranspose_smul, conjTranspose_one, Complex.star_def, Complex.conj_ofReal]
      rw [this]
      simp only [Matrix.smul_mul, Matrix.mul_smul, Matrix.one_mul, rtr_smul]
      rw [rtr_comm (S k e)]
      ring
    rw [e1]
    have hu := hupd k
    have hn : num = θ' k ^ 2 * den / θ k ^ 2 := by
      have := (hθ k).ne'
      field_simp; linarith
    have e2 : (θ k / θ' k * θ k - θ k) * num + (θ' k - θ k) * den = -(den * (θ' k - θ k) ^ 2 / θ k) := by
      have := (hθ k).ne'
      have := (hθ' k).ne'
      rw [hn]; field_simp; ring
    rw [e2]
    have := hθ k
    have : 0 ≤ den * (θ' k - θ k) ^ 2 / θ k := by positivity
    linarith
  linarith

/-- one step on the positive definite factors H of a model R = Σ λ H: the new factors solve H' P H' = H Q H -/
theorem psd_matrix_step (l : K → E → ℝ) (H H' : K → Matrix n n ℂ) (R R' X : E → Matrix n n ℂ)
    (hR : ∀ e, R e = ∑ k, (l k e : ℂ) • H k) (hR' : ∀ e, R' e = ∑ k, (l k e : ℂ) • H' k)
    (hRp : ∀ e, (R e).PosDef) (hRp' : ∀ e, (R' e).PosDef) (hX : ∀ e, (X e).PosSemidef) (hl : ∀ k e, 0 ≤ l k e)
    (hH : ∀ k, (H k).PosDef) (hH' : ∀ k, (H' k).PosDef)
    (hupd : ∀ k, H' k * (∑ e, (l k e : ℂ) • (R e)⁻¹) * H' k = H k * (∑ e, (l k e : ℂ) • ((R e)⁻¹ * X e * (R e)⁻¹)) * H k) :
    ∑ e, (log (R' e).det.re + rtr (X e * (R' e)⁻¹)) ≤ ∑ e, (log (R e).det.re + rtr (X e * (R e)⁻¹)) := by
  have hHd : ∀ k, IsUnit (H k).det := fun k => Ne.isUnit (hH k).det_pos.ne'
  have hHd' : ∀ k, IsUnit (H' k).det := fun k => Ne.isUnit (hH' k).det_pos.ne'
  have hHi : ∀ k, ((H' k)⁻¹)ᴴ = (H' k)⁻¹ := fun k => by rw [conjTranspose_nonsing_inv, (hH' k).1]
  have h := psd_descent (fun k e => (l k e : ℂ) • H k) (fun k e => (l k e : ℂ) • H' k)
    (fun k _ => (H' k)⁻¹ * H k) R R' X hR hR' hRp hRp' hX
    (fun k e => by rw [IsHermitian, conjTranspose_smul, (hH k).1]; simp)
    (fun k e => (hH' k).posSemidef.smul (by exact_mod_cast hl k e))
    (fun k e => by
      rw [Matrix.smul_mul, ← Matrix.mul_assoc, mul_nonsing_inv _ (hHd' k), Matrix.one_mul])
  refine h.trans ?_
  have : ∑ k, ∑ e, (rtr (((H' k)⁻¹ * H k)ᴴ * ((l k e : ℂ) • H k) * ((R e)⁻¹ * X e * (R e)⁻¹))
        - rtr (((l k e : ℂ) • H k) * ((R e)⁻¹ * X e * (R e)⁻¹)) + rtr ((R e)⁻¹ * ((l k e : ℂ) • H' k)) - rtr ((R e)⁻¹ * ((l k e : ℂ) • H k))) ≤ 0 := by
    refine sum_nonpos fun k _ => ?_
    set P := ∑ e, (l k e : ℂ) • (R e)⁻¹ with hP
    set Q := ∑ e, (l k e : ℂ) • ((R e)⁻¹ * X e * (R e)⁻¹) with hQ
    have hPp : P.PosSemidef := posSemidef_sum _ fun e _ => (hRp e).inv.posSemidef.smul (by exact_mod_cast hl k e)
    have e1 : ∑ e, (rtr (((H' k)⁻¹ * H k)ᴴ * ((l k e : ℂ) • H k) * ((R e)⁻¹ * X e * (R e)⁻¹))
        - rtr (((l k e : ℂ) • H k) * ((R e)⁻¹ * X e * (R e)⁻¹)) + rtr ((R e)⁻¹ * ((l k e : ℂ) • H' k)) - rtr ((R e)⁻¹ * ((l k e : ℂ) • H k)))
        = rtr (H k * (H' k)⁻¹ * H k * Q) - rtr (H k * Q) + rtr (P * H' k) - rtr (P * H k) := by
      rw [hP, hQ, Finset.sum_mul, Finset.sum_mul, Finset.mul_sum, Finset.mul_sum, rtr_sum, rtr_sum, rtr_sum, rtr_sum,
        ← sum_sub_distrib, ← sum_add_distrib, ← sum_sub_distrib]
      refine sum_congr rfl fun e _ => ?_
      rw [conjTranspose_mul, (hH k).1, hHi]
      simp only [Matrix.smul_mul, Matrix.mul_smul]
    rw [e1]
    have hu := hupd k
    rw [← hP, ← hQ] at hu
    have c1 : rtr (H k * (H' k)⁻¹ * H k * Q) = rtr (P * H' k) := by
      have : rtr (H k * (H' k)⁻¹ * H k * Q) = rtr ((H' k)⁻¹ * (H k * Q * H k)) := by
        rw [Matrix.mul_assoc, Matrix.mul_assoc, rtr_comm]; simp only [Matrix.mul_assoc]
      rw [this, ← hu, Matrix.mul_assoc, ← Matrix.mul_assoc, nonsing_inv_mul _ (hHd' k), Matrix.one_mul]
    have c2 : rtr (H k * Q) = rtr (P * (H' k * (H k)⁻¹ * H' k)) := by
      have : rtr (H k * Q) = rtr ((H k)⁻¹ * (H k * Q * H k)) := by
        rw [Matrix.mul_assoc (H k), ← Matrix.mul_assoc, nonsing_inv_mul _ (hHd k), Matrix.one_mul, rtr_comm]
      rw [this, ← hu, rtr_comm]
      have : H' k * P * H' k * (H k)⁻¹ = H' k * (P * (H' k * (H k)⁻¹)) := by simp only [Matrix.mul_assoc]
      rw [this, rtr_comm]
      simp only [Matrix.mul_assoc]
    have c3 : 0 ≤ rtr (P * ((H' k - H k) * (H k)⁻¹ * (H' k - H k))) := by
      refine rtr_psd_mul _ _ hPp ?_
      have hh : (H' k - H k)ᴴ = H' k - H k := by rw [conjTranspose_sub, (hH k).1, (hH' k).1]
      have := (hH k).inv.posSemidef.conjTranspose_mul_mul_same (H' k - H k)
      rwa [hh] at this
    have c4 : (H' k - H k) * (H k)⁻¹ * (H' k - H k) = H' k * (H k)⁻¹ * H' k - H' k - H' k + H k := by
      rw [Matrix.sub_mul, Matrix.sub_mul, Matrix.mul_sub, Matrix.mul_sub, mul_nonsing_inv _ (hHd k), Matrix.one_mul, Matrix.one_mul,
        Matrix.mul_assoc (H' k) _ (H k), nonsing_inv_mul _ (hHd k), Matrix.mul_one]
      abel
    rw [c4, Matrix.mul_add, Matrix.mul_sub, Matrix.mul_sub, rtr_add, rtr_sub, rtr_sub] at c3
    rw [c1, c2]
    linarith
  linarith


/-- T S (S T P T S)^(-1/2) S T solves H' P H' = T Q T when S S = Q -/
theorem riccati_root (T S P Q Z : Matrix n n ℂ) (hS : S * S = Q) (hZ : Z * (S * T * P * T * S) * Z = 1) :
    (T * S * Z * S * T) * P * (T * S * Z * S * T) = T * Q * T := by
  have : (T * S * Z * S * T) * P * (T * S * Z * S * T) = T * S * (Z * (S * T * P * T * S) * Z) * S * T := by
    simp only [Matrix.mul_assoc]
  rw [this, hZ, Matrix.mul_one, Matrix.mul_assoc T, hS]

/-- blockwise coordinate descent: the row that is stationary on the branch with γᴴ U⁻¹ g ≤ 0 minimises its objective -/
theorem vcd_step (W W' U : Matrix n n ℂ) (γ g : n → ℂ) (hU : U.PosDef) (k : n) (hrow : ∀ m, m ≠ k → W m = W' m)
    (hdet : W.det ≠ 0) (hdet' : W'.det ≠ 0) (hg : g = U *ᵥ star (W' k) + γ)
    (hstat : ∀ m, W' m ⬝ᵥ g = if m = k then 1 else 0) (hbranch : (star γ ⬝ᵥ (U⁻¹ *ᵥ g)).re ≤ 0) :
    (W' k ⬝ᵥ (U *ᵥ star (W' k))).re + 2 * (W' k ⬝ᵥ γ).re - 2 * log ‖W'.det‖
      ≤ (W k ⬝ᵥ (U *ᵥ star (W k))).re + 2 * (W k ⬝ᵥ γ).re - 2 * log ‖W.det‖ := by
  have hUd : IsUnit U.det := Ne.isUnit hU.det_pos.ne'
  have hinv : W'⁻¹ * W' = 1 := Matrix.nonsing_inv_mul _ (Ne.isUnit hdet')
  obtain ⟨v, hv⟩ : ∃ v : n → ℂ, v = W k ᵥ* W'⁻¹ := ⟨_, rfl⟩
  have hwk : W k = v ᵥ* W' := by rw [hv, vecMul_vecMul, hinv, vecMul_one]
  have hW : W = W'.updateRow k (∑ j, v j • W' j) := by
    ext m j
    by_cases h : m = k
    · subst h
      rw [updateRow_self, hwk]
      simp [vecMul, dotProduct, Finset.sum_apply]
    · rw [updateRow_ne h, hrow m h]
  have hd : W.det = v k * W'.det := by
    rw [hW, det_updateRow_sum]; simp
  have hvk : v k ≠ 0 := by
    intro h; apply hdet; rw [hd, h, zero_mul]
  have hz : W k ⬝ᵥ g = v k := by
    rw [hwk, ← dotProduct_mulVec]
    have : W' *ᵥ g = Pi.single k 1 := by
      ext m; simp only [mulVec]; rw [hstat m]; simp [Pi.single_apply]
    rw [this]; simp
  obtain ⟨d, hdd⟩ : ∃ d : n → ℂ, d = W k - W' k := ⟨_, rfl⟩
  have hdg : d ⬝ᵥ g = v k - 1 := by rw [hdd, sub_dotProduct, hz, hstat k]; simp
  obtain ⟨h, hh⟩ : ∃ h : n → ℂ, h = U⁻¹ *ᵥ g := ⟨_, rfl⟩
  have hUh : U *ᵥ h = g := by rw [hh, mulVec_mulVec, mul_nonsing_inv _ hUd, one_mulVec]
  have fs : ∀ x y : n → ℂ, star (x ⬝ᵥ (U *ᵥ star y)) = y ⬝ᵥ (U *ᵥ star x) := by
    intro x y
    rw [← star_dotProduct_star, star_mulVec, hU.1, star_star, dotProduct_comm, dotProduct_comm, dotProduct_mulVec]
  have pos : ∀ x : n → ℂ, 0 ≤ (x ⬝ᵥ (U *ᵥ star x)).re := by
    intro x
    have := hU.posSemidef.re_dotProduct_nonneg (star x)
    rwa [star_star] at this
  -- κ = gᴴ U⁻¹ g ≤ 1
  have hkap : (star h ⬝ᵥ g).re ≤ 1 := by
    have e : star h ⬝ᵥ g = star (W' k ⬝ᵥ g) + star h ⬝ᵥ γ := by
      conv_lhs => rw [hg]
      rw [dotProduct_add]
      congr 1
      have := fs (W' k) (star h)
      rw [star_star, hUh] at this
      rw [this]
    rw [e, hstat k]
    have e2 : (star h ⬝ᵥ γ).re = (star γ ⬝ᵥ (U⁻¹ *ᵥ g)).re := by
      rw [← hh]
      have : star (star h ⬝ᵥ γ) = star γ ⬝ᵥ h := by
        rw [← star_dotProduct_star, star_star]
      rw [← this]; simp
    rw [Complex.add_re, e2]
    simp
    exact hbranch
  have hcs : ‖v k - 1‖ ^ 2 ≤ (d ⬝ᵥ (U *ᵥ star d)).re := by
    have h0 := pos (d - (v k - 1) • star h)
    have e : (d - (v k - 1) • star h) ⬝ᵥ (U *ᵥ star (d - (v k - 1) • star h))
        = d ⬝ᵥ (U *ᵥ star d) - (v k - 1) * star (v k - 1) - (v k - 1) * star (v k - 1)
          + (v k - 1) * star (v k - 1) * (star h ⬝ᵥ g) := by
      have a1 : U *ᵥ star ((v k - 1) • star h) = star (v k - 1) • g := by
        rw [star_smul, star_star, mulVec_smul, hUh]
      have a2 : star h ⬝ᵥ (U *ᵥ star d) = star (v k - 1) := by
        have := fs d (star h)
        rw [star_star, hUh, hdg] at this
        exact this.symm
      rw [star_sub, mulVec_sub, a1, sub_dotProduct, dotProduct_sub, dotProduct_sub, dotProduct_smul, dotProduct_smul,
        smul_dotProduct, smul_dotProduct, hdg, a2]
      simp only [smul_eq_mul]
      ring
    have hn : (v k - 1) * star (v k - 1) = ((‖v k - 1‖ ^ 2 : ℝ) : ℂ) := by
      rw [Complex.star_def, Complex.mul_conj, Complex.normSq_eq_norm_sq]
    rw [e, hn, Complex.add_re, Complex.sub_re, Complex.sub_re, Complex.re_ofReal_mul, Complex.ofReal_re] at h0
    nlinarith [sq_nonneg ‖v k - 1‖]
  have hexp : (W k ⬝ᵥ (U *ᵥ star (W k))).re + 2 * (W k ⬝ᵥ γ).re
      = (W' k ⬝ᵥ (U *ᵥ star (W' k))).re + 2 * (W' k ⬝ᵥ γ).re + (d ⬝ᵥ (U *ᵥ star d)).re + 2 * (v k - 1).re := by
    have hw : W k = W' k + d := by rw [hdd]; abel
    have e1 : (d ⬝ᵥ (U *ᵥ star (W' k))).re = (W' k ⬝ᵥ (U *ᵥ star d)).re := by
      rw [← fs]; simp
    have e2 : (v k - 1).re = (d ⬝ᵥ (U *ᵥ star (W' k))).re + (d ⬝ᵥ γ).re := by
      rw [← hdg, hg, dotProduct_add, Complex.add_re]
    rw [e2, hw, star_add, mulVec_add]
    simp only [add_dotProduct, dotProduct_add, Complex.add_re]
    rw [← e1]; ring
  have hl := log_le_sub_one_of_pos (show 0 < ‖v k‖ ^ 2 by positivity)
  rw [log_pow] at hl
  push_cast at hl
  have hn2 : ‖v k - 1‖ ^ 2 = ‖v k‖ ^ 2 - 2 * (v k).re + 1 := by
    rw [← Complex.normSq_eq_norm_sq, ← Complex.normSq_eq_norm_sq, Complex.normSq_apply, Complex.normSq_apply]
    simp; ring
  rw [hexp, hd, norm_mul, log_mul (norm_ne_zero_iff.mpr hvk) (norm_ne_zero_iff.mpr hdet')]
  rw [hn2] at hcs
  have : (v k - 1).re = (v k).re - 1 := by simp
  rw [this]
  linarith

/-- the branch condition from the closed form of the row: ξ = ηᴴUη, s = |ηᴴγ|², d = s (or 1 where s = 0), b = γᴴU⁻¹g -/
theorem vcd_branch (b x s d : ℝ) (hx : 0 < x) (hs : 0 ≤ s) (hd : 0 < d) (h : 2 * x * b = s - s * sqrt (1 + 4 * x / d)) : b ≤ 0 := by
  have h1 : 1 ≤ sqrt (1 + 4 * x / d) := by
    rw [Real.one_le_sqrt]
    have : 0 ≤ 4 * x / d := by positivity
    linarith
  have h2 : s ≤ s * sqrt (1 + 4 * x / d) := le_mul_of_one_le_right hs h1
  by_contra hc
  push Not at hc
  have : 0 < 2 * x * b := by positivity
  linarith

lemma rtr_rank_one (A : Matrix n n ℂ) (z : n → ℂ) : rtr (A * vecMulVec z (star z)) = (star z ⬝ᵥ (A *ᵥ z)).re := by
  rw [rtr, mul_vecMulVec, trace_vecMulVec, dotProduct_comm]

/-- one expectation-maximisation step of the complex angular central Gaussian mixture in one frequency bin -/
theorem em_step [Nonempty E] (a a' : K → ℝ) (B B' : K → Matrix n n ℂ) (z : E → n → ℂ) (q q' : K → E → ℝ) (G : K → E → ℝ)
    (hn : 0 < Fintype.card n) (ha : ∀ k, 0 < a k) (hsum : ∑ k, a k = 1) (hB : ∀ k, (B k).PosDef) (hB' : ∀ k, (B' k).PosDef)
    (hq : ∀ k e, q k e = (star (z e) ⬝ᵥ ((B k)⁻¹ *ᵥ z e)).re) (hq' : ∀ k e, q' k e = (star (z e) ⬝ᵥ ((B' k)⁻¹ *ᵥ z e)).re)
    (hqp : ∀ k e, 0 < q k e) (hqp' : ∀ k e, 0 < q' k e)
    (hG : ∀ k e, G k e * ∑ m, exp (log (a m) - log (B m).det.re - Fintype.card n * log (q m e))
        = exp (log (a k) - log (B k).det.re - Fintype.card n * log (q k e)))
    (ha' : ∀ k, a' k = (∑ e, G k e) / Fintype.card E)
    (hupd : ∀ k, ((∑ e, G k e : ℝ) : ℂ) • B' k = (Fintype.card n : ℂ) • ∑ e, ((G k e / q k e : ℝ) : ℂ) • vecMulVec (z e) (star (z e))) :
    -∑ e, log (∑ k, exp (log (a' k) - log (B' k).det.re - Fintype.card n * log (q' k e)))
      ≤ -∑ e, log (∑ k, exp (log (a k) - log (B k).det.re - Fintype.card n * log (q k e))) := by
  obtain ⟨M, hM⟩ : ∃ M : ℝ, M = Fintype.card n := ⟨_, rfl⟩
  rw [← hM] at hG ⊢
  have hMp : 0 < M := by rw [hM]; exact_mod_cast hn
  obtain ⟨l, hl⟩ : ∃ l : K → E → ℝ, ∀ k e, l k e = log (a k) - log (B k).det.re - M * log (q k e) := ⟨_, fun _ _ => rfl⟩
  obtain ⟨l', hl'⟩ : ∃ l : K → E → ℝ, ∀ k e, l k e = log (a' k) - log (B' k).det.re - M * log (q' k e) := ⟨_, fun _ _ => rfl⟩
  simp only [← hl] at hG ⊢
  simp only [← hl']
  have : Nonempty K := by
    by_contra h
    rw [not_nonempty_iff] at h
    simp at hsum
  have hS : ∀ e, 0 < ∑ m, exp (l m e) := fun e => sum_pos (fun m _ => exp_pos _) univ_nonempty
  have hGp : ∀ k e, 0 < G k e := fun k e => by
    have := exp_pos (l k e)
    rw [← hG k e] at this
    exact (pos_iff_pos_of_mul_pos this).mpr (hS e)
  have hG1 : ∀ e, ∑ k, G k e = 1 := fun e => by
    have : (∑ k, G k e) * ∑ m, exp (l m e) = 1 * ∑ m, exp (l m e) := by
      rw [sum_mul, one_mul]; exact sum_congr rfl fun k _ => hG k e
    exact mul_right_cancel₀ (hS e).ne' this
  have jensen : ∀ e, ∑ k, G k e * (l' k e - l k e) ≤ log (∑ k, exp (l' k e)) - log (∑ k, exp (l k e)) := by
    intro e
    have h := convexOn_exp.map_sum_le (t := univ) (w := fun k => G k e) (p := fun k => l' k e - l k e)
      (fun k _ => (hGp k e).le) (hG1 e) (fun _ _ => Set.mem_univ _)
    simp only [smul_eq_mul] at h
    have e1 : (∑ k, G k e * exp (l' k e - l k e)) * ∑ m, exp (l m e) = ∑ k, exp (l' k e) := by
      rw [sum_mul]
      refine sum_congr rfl fun k _ => ?_
      rw [mul_right_comm, hG k e, ← exp_add]; congr 1; ring
    have e2 : 0 < ∑ k, exp (l' k e) := sum_pos (fun m _ => exp_pos _) univ_nonempty
    rw [← log_div e2.ne' (hS e).ne', ← e1, mul_div_assoc, div_self (hS e).ne', mul_one]
    rw [le_log_iff_exp_le (lt_of_lt_of_le (exp_pos _) h)]
    exact h
  obtain ⟨g, hg⟩ : ∃ g : K → ℝ, ∀ k, g k = ∑ e, G k e := ⟨_, fun _ => rfl⟩
  have hgp : ∀ k, 0 < g k := fun k => by rw [hg]; exact sum_pos (fun e _ => hGp k e) univ_nonempty
  have hE : (0 : ℝ) < Fintype.card E := by exact_mod_cast Fintype.card_pos
  have hgs : ∑ k, g k = Fintype.card E := by
    simp only [hg]; rw [sum_comm]; simp [hG1]
  have weights : 0 ≤ ∑ k, g k * (log (a' k) - log (a k)) := by
    have h : ∀ k, g k - Fintype.card E * a k ≤ g k * (log (a' k) - log (a k)) := by
      intro k
      have hak : 0 < a' k := by rw [ha', ← hg]; exact div_pos (hgp k) hE
      have h1 := log_le_sub_one_of_pos (div_pos (ha k) hak)
      rw [log_div (ha k).ne' hak.ne'] at h1
      have h2 : g k * (a k / a' k) = Fintype.card E * a k := by
        rw [ha', ← hg]; have := (hgp k).ne'; field_simp
      nlinarith [hgp k]
    have := sum_le_sum (s := univ) fun k (_ : k ∈ univ) => h k
    rw [sum_sub_distrib, ← mul_sum, hsum, hgs] at this
    linarith
  have cov : ∀ k, g k * (log (B' k).det.re - log (B k).det.re) + M * ∑ e, G k e * (log (q' k e) - log (q k e)) ≤ 0 := by
    intro k
    have tr : ∀ A : Matrix n n ℂ, g k * rtr (A * B' k) = M * ∑ e, G k e / q k e * (star (z e) ⬝ᵥ (A *ᵥ z e)).re := by
      intro A
      have h := congrArg (fun X => rtr (A * X)) (hupd k)
      simp only [Matrix.mul_smul, Finset.mul_sum] at h
      rw [rtr_smul, ← hg] at h
      have : ((Fintype.card n : ℕ) : ℂ) = ((M : ℝ) : ℂ) := by rw [hM]; norm_cast
      rw [this, rtr_smul, rtr_sum] at h
      simp only [rtr_smul, rtr_rank_one] at h
      exact h
    have h1 := logdet_trace (B' k) (B k) (hB' k) (hB k)
    have t1 : g k * rtr ((B k)⁻¹ * B' k) = M * g k := by
      rw [tr, hg]
      congr 1
      refine sum_congr rfl fun e _ => ?_
      rw [← hq, div_mul_cancel₀ _ (hqp k e).ne']
    have t2 : M * ∑ e, G k e / q k e * q' k e = M * g k := by
      have := tr (B' k)⁻¹
      simp only [← hq'] at this
      rw [← this, nonsing_inv_mul _ (Ne.isUnit (hB' k).det_pos.ne'), rtr, trace_one, hM]
      simp; ring
    have t3 : ∑ e, G k e * (log (q' k e) - log (q k e)) ≤ ∑ e, (G k e / q k e * q' k e - G k e) := by
      refine sum_le_sum fun e _ => ?_
      have h := log_le_sub_one_of_pos (div_pos (hqp' k e) (hqp k e))
      rw [log_div (hqp' k e).ne' (hqp k e).ne'] at h
      have : G k e / q k e * q' k e = G k e * (q' k e / q k e) := by ring
      rw [this]; nlinarith [hGp k e]
    rw [sum_sub_distrib, ← hg] at t3
    have h1' : rtr ((B k)⁻¹ * B' k) = M := by
      have := (hgp k).ne'
      apply mul_left_cancel₀ this; rw [t1]; ring
    rw [show ((B k)⁻¹ * B' k).trace.re = rtr ((B k)⁻¹ * B' k) from rfl, h1', hM] at h1
    have t4 : ∑ e, G k e / q k e * q' k e = g k := mul_left_cancel₀ hMp.ne' t2
    rw [t4] at t3
    have : g k * (log (B' k).det.re - log (B k).det.re) ≤ 0 := by
      have := hgp k
      nlinarith
    nlinarith
  have total := sum_le_sum (s := univ) fun e (_ : e ∈ univ) => jensen e
  rw [sum_sub_distrib] at total
  have split : ∑ e, ∑ k, G k e * (l' k e - l k e) = ∑ k, g k * (log (a' k) - log (a k))
      - ∑ k, (g k * (log (B' k).det.re - log (B k).det.re) + M * ∑ e, G k e * (log (q' k e) - log (q k e))) := by
    rw [sum_comm, ← sum_sub_distrib]
    refine sum_congr rfl fun k _ => ?_
    simp only [hl, hl', hg]
    rw [sum_mul, sum_mul, mul_sum, ← sum_add_distrib, ← sum_sub_distrib]
    exact sum_congr rfl fun e _ => by ring
  have := sum_nonpos fun k (_ : k ∈ univ) => cov k
  rw [split] at total
  linarith

end Descent
