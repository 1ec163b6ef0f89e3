import Mathlib

/-- Entries `x i` selected by `m i`, none below `low`; `c ≠ 0` is their number.
Their mean is `low` exactly when all of them are `low`. -/
theorem mean_least (n : ℕ) (x : Fin n → ℝ) (m : Fin n → Bool) (c s low : ℝ)
    (hc : c = ∑ i, if m i then (1 : ℝ) else 0)
    (hs : s = ∑ i, if m i then x i else 0)
    (hlow : ∀ i, m i = true → low ≤ x i) (hpos : c ≠ 0) :
    s / c = low ↔ ∀ i, m i = true → x i = low := by
  have key : (∑ i, if m i then (x i - low) else 0) = s - low * c := by
    rw [hs, hc, Finset.mul_sum, ← Finset.sum_sub_distrib]
    apply Finset.sum_congr rfl
    intro i _
    by_cases h : m i = true <;> simp [h]
  have nonneg : ∀ i ∈ Finset.univ, 0 ≤ (if m i then (x i - low) else 0) := by
    intro i _
    by_cases h : m i = true
    · simp [h, hlow i h]
    · simp [h]
  rw [div_eq_iff hpos]
  constructor
  · intro h
    have h0 : (∑ i, if m i then (x i - low) else 0) = 0 := by rw [key, h]; ring
    have hz := (Finset.sum_eq_zero_iff_of_nonneg nonneg).mp h0
    intro i hi
    have := hz i (Finset.mem_univ i)
    simp [hi] at this
    linarith
  · intro h
    have h0 : (∑ i, if m i then (x i - low) else 0) = 0 := by
      apply Finset.sum_eq_zero
      intro i _
      by_cases hi : m i = true
      · simp [hi, h i hi]
      · simp [hi]
    linarith [key.symm.trans h0]

/-- The same for the greatest value. -/
theorem mean_greatest (n : ℕ) (x : Fin n → ℝ) (m : Fin n → Bool) (c s high : ℝ)
    (hc : c = ∑ i, if m i then (1 : ℝ) else 0)
    (hs : s = ∑ i, if m i then x i else 0)
    (hhigh : ∀ i, m i = true → x i ≤ high) (hpos : c ≠ 0) :
    s / c = high ↔ ∀ i, m i = true → x i = high := by
  have := mean_least n (fun i => -x i) m c (-s) (-high) hc
    (by rw [hs, ← Finset.sum_neg_distrib]; apply Finset.sum_congr rfl; intro i _
        by_cases h : m i = true <;> simp [h])
    (fun i hi => by simpa using hhigh i hi) hpos
  constructor
  · intro h i hi
    have := this.mp (by rw [neg_div, h]) i hi
    linarith
  · intro h
    have := this.mpr (fun i hi => by simp [h i hi])
    rw [neg_div] at this
    linarith
