import Mathlib

/-- Among the selected entries, the first occurrences of values below `x p` are fewer than
the first occurrences of all values, for any selected `p`. -/
theorem distinct_below (n : ℕ) (x : Fin n → ℤ) (m : Fin n → Bool) (p : Fin n) (hp : m p = true) :
    (∑ q, if (m q = true ∧ x q < x p ∧ ¬ ∃ h, h < q ∧ m h = true ∧ x h = x q) then 1 else 0)
      < (∑ q, if (m q = true ∧ ¬ ∃ h, h < q ∧ m h = true ∧ x h = x q) then (1 : ℕ) else 0) := by
  classical
  let s : Finset (Fin n) := Finset.univ.filter (fun q => m q = true ∧ x q = x p)
  have hs : s.Nonempty := ⟨p, by simp [s, hp]⟩
  have h0 := Finset.min'_mem s hs
  have hmin : ∀ h, m h = true → x h = x p → s.min' hs ≤ h := fun h a b =>
    Finset.min'_le s h (by simp [s, a, b])
  generalize s.min' hs = q0 at h0 hmin
  have hq : m q0 = true ∧ x q0 = x p := by simpa [s] using h0
  apply Finset.sum_lt_sum
  · intro q _
    split_ifs with h1 h2 <;> simp_all
  · refine ⟨q0, Finset.mem_univ _, ?_⟩
    have first : ¬ ∃ h, h < q0 ∧ m h = true ∧ x h = x q0 := by
      rintro ⟨h, hl, hm, hx⟩
      exact absurd (hmin h hm (hx.trans hq.2)) (not_le.mpr hl)
    rw [if_neg, if_pos]
    · exact Nat.one_pos
    · exact ⟨hq.1, first⟩
    · rintro ⟨_, hlt, _⟩
      exact absurd hlt (by rw [hq.2]; exact lt_irrefl _)
