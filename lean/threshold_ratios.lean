import Mathlib

open Finset

/-- `c i` are positive counts of `k + 2` categories and `A` the tridiagonal matrix
with diagonal `c i + c (i+1)`, `-c (i+1)` left of it and `-c i` right of it.  The
first column of its inverse, times `c 1`, holds the proportions above each category. -/
theorem threshold_ratios (k : ℕ) (c : ℕ → ℝ) (hc : ∀ i < k + 2, 0 < c i)
    (A : Matrix (Fin (k + 1)) (Fin (k + 1)) ℝ)
    (hA : ∀ i j : Fin (k + 1), A i j =
      if i.val = j.val then c i + c (i + 1)
      else if i.val = j.val + 1 then - c (i + 1)
      else if j.val = i.val + 1 then - c i else 0) (h : Fin (k + 1)) :
    A⁻¹ h 0 * c 1 = (∑ j ∈ Ico (h.val + 1) (k + 2), c j) / ∑ j ∈ range (k + 2), c j := by
  -- the product of A with a vector, given by a function on ℕ that vanishes at k + 1
  have row : ∀ (Y : ℕ → ℝ), Y (k + 1) = 0 → ∀ i : Fin (k + 1),
      ∑ j : Fin (k + 1), A i j * Y j.val
        = (c i + c (i + 1)) * Y i - (if i.val = 0 then 0 else c (i + 1) * Y (i - 1))
          - c i * Y (i + 1) := by
    intro Y hY i
    have e : ∀ j : Fin (k + 1), A i j * Y j.val
        = (if i.val = j.val then (c i + c (i + 1)) * Y j.val else 0)
          + (if i.val = j.val + 1 then - c (i + 1) * Y j.val else 0)
          + (if i.val + 1 = j.val then - c i * Y j.val else 0) := by
      intro j
      rw [hA]
      by_cases h1 : i.val = j.val
      · have h2 : ¬ i.val = j.val + 1 := by omega
        have h3 : ¬ i.val + 1 = j.val := by omega
        simp only [h1, if_true]
        rw [if_neg (by omega), if_neg (by omega)]; ring
      · by_cases h2 : i.val = j.val + 1
        · rw [if_neg h1, if_pos h2, if_neg h1, if_pos h2, if_neg (by omega)]; ring
        · by_cases h3 : i.val + 1 = j.val
          · rw [if_neg h1, if_neg h2, if_pos h3.symm, if_neg h1, if_neg h2, if_pos h3]; ring
          · rw [if_neg h1, if_neg h2, if_neg (fun q => h3 q.symm), if_neg h1, if_neg h2,
              if_neg h3]; ring
    rw [Finset.sum_congr rfl (fun j _ => e j), sum_add_distrib, sum_add_distrib]
    rw [Fin.sum_univ_eq_sum_range (fun j => if i.val = j then (c i + c (i + 1)) * Y j else 0),
      Fin.sum_univ_eq_sum_range (fun j => if i.val = j + 1 then - c (i + 1) * Y j else 0),
      Fin.sum_univ_eq_sum_range (fun j => if i.val + 1 = j then - c i * Y j else 0)]
    have hi := i.isLt
    have s1 : ∑ j ∈ range (k + 1), (if i.val = j then (c i + c (i + 1)) * Y j else 0)
        = (c i + c (i + 1)) * Y i := by
      rw [Finset.sum_ite_eq]; simp [hi]
    have s3 : ∑ j ∈ range (k + 1), (if i.val + 1 = j then - c i * Y j else 0)
        = - c i * Y (i + 1) := by
      rw [Finset.sum_ite_eq]
      by_cases q : i.val + 1 < k + 1
      · simp [q]
      · have : i.val + 1 = k + 1 := by omega
        simp [this, hY]
    have s2 : ∑ j ∈ range (k + 1), (if i.val = j + 1 then - c (i + 1) * Y j else 0)
        = - (if i.val = 0 then 0 else c (i + 1) * Y (i - 1)) := by
      by_cases q : i.val = 0
      · rw [if_pos q]
        simp only [neg_zero]
        apply sum_eq_zero
        intro j _
        rw [if_neg (by omega)]
      · rw [if_neg q]
        rw [Finset.sum_eq_single (i.val - 1)]
        · rw [if_pos (by omega)]; ring
        · intro j _ hj
          rw [if_neg (by omega)]
        · intro hj
          exact absurd (mem_range.mpr (by omega)) hj
    rw [s1, s2, s3]; ring
  have c0 : c 0 ≠ 0 := (hc 0 (by omega)).ne'
  have hN : 0 < ∑ j ∈ range (k + 2), c j :=
    sum_pos (fun j hj => hc j (mem_range.mp hj)) ⟨0, by simp⟩
  -- A is injective
  have inj : ∀ y : Fin (k + 1) → ℝ, A.mulVec y = 0 → y = 0 := by
    intro y hy
    let Y : ℕ → ℝ := fun j => if q : j < k + 1 then y ⟨j, q⟩ else 0
    have hY : Y (k + 1) = 0 := by simp [Y]
    have hYy : ∀ j : Fin (k + 1), Y j.val = y j := by
      intro j; exact dif_pos j.isLt
    have hr : ∀ i : Fin (k + 1), (c i + c (i + 1)) * Y i
        - (if i.val = 0 then 0 else c (i + 1) * Y (i - 1)) - c i * Y (i + 1) = 0 := by
      intro i
      rw [← row Y hY i]
      have := congrFun hy i
      simp only [Matrix.mulVec, dotProduct, Pi.zero_apply] at this
      rw [← this]
      exact Finset.sum_congr rfl (fun j _ => by rw [hYy])
    have both : ∀ i, i ≤ k → Y i * c 0 = Y 0 * ∑ j ∈ range (i + 1), c j ∧
        Y (i + 1) * c 0 = Y 0 * ∑ j ∈ range (i + 2), c j := by
      intro i
      induction i with
      | zero =>
        intro _
        have := hr ⟨0, by omega⟩
        simp at this
        simp [sum_range_succ]
        linarith
      | succ i ih =>
        intro hi
        obtain ⟨h1, h2⟩ := ih (by omega)
        refine ⟨h2, ?_⟩
        have := hr ⟨i + 1, by omega⟩
        simp at this
        have hp : c (i + 1) ≠ 0 := (hc (i + 1) (by omega)).ne'
        apply mul_left_cancel₀ hp
        rw [sum_range_succ] at h2
        rw [sum_range_succ, sum_range_succ]
        have e1 : c (i + 1) * (Y (i + 1 + 1) * c 0)
            = (c (i + 1) + c (i + 1 + 1)) * (Y (i + 1) * c 0) - c (i + 1 + 1) * (Y i * c 0) := by
          linear_combination (-c 0) * this
        rw [e1, h1, h2]
        ring
    have last := (both k le_rfl).2
    rw [hY, zero_mul] at last
    have y0 : Y 0 = 0 := by
      rcases mul_eq_zero.mp last.symm with q | q
      · exact q
      · exact absurd q hN.ne'
    funext j
    have := (both j.val (by omega)).1
    rw [y0, zero_mul] at this
    rcases mul_eq_zero.mp this with q | q
    · rw [← hYy, q]; rfl
    · exact absurd q c0
  have unit : IsUnit A := by
    rw [← Matrix.mulVec_injective_iff_isUnit]
    intro a b hab
    have : A.mulVec (a - b) = 0 := by
      rw [Matrix.mulVec_sub]; exact sub_eq_zero.mpr hab
    exact sub_eq_zero.mp (inj _ this)
  -- the proportions solve the system
  let T : ℕ → ℝ := fun i => (∑ j ∈ Ico (i + 1) (k + 2), c j) / ∑ j ∈ range (k + 2), c j
  have hT : T (k + 1) = 0 := by simp [T]
  have step : ∀ i, i + 1 < k + 2 → T i = T (i + 1) + c (i + 1) / ∑ j ∈ range (k + 2), c j := by
    intro i hi
    simp only [T]
    rw [Finset.sum_eq_sum_Ico_succ_bot hi, ← add_div]
    ring
  have sol : A.mulVec (fun j : Fin (k + 1) => T j.val)
      = fun i : Fin (k + 1) => if i = 0 then c 1 else 0 := by
    funext i
    simp only [Matrix.mulVec, dotProduct]
    rw [row T hT i]
    have hi := i.isLt
    by_cases q : i.val = 0
    · have qi : i = 0 := Fin.ext q
      rw [if_pos q, if_pos qi, q]
      have tot : ∑ j ∈ range (k + 2), c j = c 0 + ∑ j ∈ Ico 1 (k + 2), c j := by
        rw [range_eq_Ico, Finset.sum_eq_sum_Ico_succ_bot (by omega)]
      have t1 : T 1 = T 0 - c 1 / ∑ j ∈ range (k + 2), c j := by
        rw [step 0 (by omega)]; ring
      have t0 : T 0 * ∑ j ∈ range (k + 2), c j = ∑ j ∈ Ico 1 (k + 2), c j := by
        simp only [T]; field_simp
      simp only [zero_add]
      rw [t1]
      have : T 0 = 1 - c 0 / ∑ j ∈ range (k + 2), c j := by
        field_simp
        rw [t0, tot]; ring
      rw [this]
      field_simp
      ring
    · have qi : ¬ i = 0 := fun z => q (by rw [z]; rfl)
      rw [if_neg q, if_neg qi]
      have a1 := step (i.val - 1) (by omega)
      have a2 := step i.val (by omega)
      rw [show i.val - 1 + 1 = i.val by omega] at a1
      rw [a1]
      rw [a2]
      ring
  have det : IsUnit A.det := (Matrix.isUnit_iff_isUnit_det A).mp unit
  have : (fun j : Fin (k + 1) => T j.val)
      = A⁻¹.mulVec (fun i : Fin (k + 1) => if i = 0 then c 1 else 0) := by
    rw [← sol, Matrix.mulVec_mulVec, Matrix.nonsing_inv_mul A det, Matrix.one_mulVec]
  have := congrFun this h
  simp only [Matrix.mulVec, dotProduct, mul_ite, mul_zero, Finset.sum_ite_eq', Finset.mem_univ,
    if_true] at this
  exact this.symm
