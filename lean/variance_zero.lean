import Mathlib

/-- Entries `x i` selected by `m i`; `c` is their number.  If at least one is
selected, the (population) variance of the selected entries is zero exactly
when all of them are equal. -/
theorem variance_zero (n : ℕ) (x : Fin n → ℝ) (m : Fin n → Bool)
    (c s1 s2 : ℝ)
    (hc : c = ∑ i, if m i then (1 : ℝ) else 0)
    (h1 : s1 = ∑ i, if m i then x i else 0)
    (h2 : s2 = ∑ i, if m i then (x i) ^ 2 else 0)
    (hpos : c ≠ 0) :
    (s2 / c - (s1 / c) ^ 2 = 0) ↔ ∀ i j, m i = true → m j = true → x i = x j := by
  have key : (∑ i, if m i then (x i - s1 / c) ^ 2 else 0) = s2 - s1 ^ 2 / c := by
    have : ∀ i, (if m i then (x i - s1 / c) ^ 2 else 0)
        = (if m i then (x i) ^ 2 else 0) - 2 * (s1 / c) * (if m i then x i else 0)
          + (s1 / c) ^ 2 * (if m i then (1 : ℝ) else 0) := by
      intro i
      by_cases h : m i = true <;> simp [h]
      ring
    simp_rw [this]
    rw [Finset.sum_add_distrib, Finset.sum_sub_distrib, ← Finset.mul_sum, ← Finset.mul_sum,
      ← hc, ← h1, ← h2]
    field_simp
    ring
  have e : s2 / c - (s1 / c) ^ 2 = (s2 - s1 ^ 2 / c) / c := by
    field_simp
  constructor
  · intro h
    rw [e] at h
    have h0 : s2 - s1 ^ 2 / c = 0 := by
      rcases div_eq_zero_iff.mp h with h | h
      · exact h
      · exact absurd h hpos
    rw [h0] at key
    have hz := (Finset.sum_eq_zero_iff_of_nonneg (s := Finset.univ)
      (f := fun i => if m i then (x i - s1 / c) ^ 2 else 0)
      (by intro i _; by_cases h : m i = true <;> simp [h]; positivity)).mp key
    have hx : ∀ i, m i = true → x i = s1 / c := by
      intro i hi
      have := hz i (Finset.mem_univ i)
      simp [hi] at this
      linarith
    intro i j hi hj
    rw [hx i hi, hx j hj]
  · intro h
    have : ∃ i, m i = true := by
      by_contra hne
      push Not at hne
      apply hpos
      rw [hc]
      apply Finset.sum_eq_zero
      intro i _
      simp [hne i]
    obtain ⟨a, ha⟩ := this
    have hs1 : s1 = x a * c := by
      rw [h1, hc, Finset.mul_sum]
      apply Finset.sum_congr rfl
      intro i _
      by_cases hi : m i = true
      · simp [hi, h i a hi ha]
      · simp [hi]
    have hs2 : s2 = (x a) ^ 2 * c := by
      rw [h2, hc, Finset.mul_sum]
      apply Finset.sum_congr rfl
      intro i _
      by_cases hi : m i = true
      · simp [hi, h i a hi ha]
      · simp [hi]
    rw [hs1, hs2]
    field_simp
    ring
