/-- product of m over [i, j) -/
noncomputable def S.prodm (m : ℤ → ℤ) (i j : ℤ) : ℤ := ∏ l ∈ Finset.Ico i j, m l
/-- mixed-radix value of the digits v over [i, j) -/
noncomputable def S.horn (v m : ℤ → ℤ) (i j : ℤ) : ℤ := ∑ l ∈ Finset.Ico i j, v l * S.prodm m i l
/-- m[0..n) pairwise coprime -/
noncomputable def S.pairwise (m : ℤ → ℤ) (n : ℤ) : Prop := ∀ i j : ℤ, 0 ≤ i → i < j → j < n → IsCoprime (m i) (m j)

namespace L
theorem prodm_empty (m : ℤ → ℤ) (i j : ℤ) : i ≥ j → S.prodm m i j = 1 := by
  intro h; simp only [S.prodm]; rw [Finset.Ico_eq_empty (by omega)]; simp
theorem ico_right (i j : ℤ) (h : i < j) : Finset.Ico i j = insert (j - 1) (Finset.Ico i (j - 1)) := by
  ext x; simp only [Finset.mem_Ico, Finset.mem_insert]; omega
theorem ico_left (i j : ℤ) (h : i < j) : Finset.Ico i j = insert i (Finset.Ico (i + 1) j) := by
  ext x; simp only [Finset.mem_Ico, Finset.mem_insert]; omega
theorem prodm_right (m : ℤ → ℤ) (i j : ℤ) : i < j → S.prodm m i j = S.prodm m i (j - 1) * m (j - 1) := by
  intro h; simp only [S.prodm]; rw [ico_right i j h, Finset.prod_insert (by simp)]; ring
theorem prodm_left (m : ℤ → ℤ) (i j : ℤ) : i < j → S.prodm m i j = m i * S.prodm m (i + 1) j := by
  intro h; simp only [S.prodm]; rw [ico_left i j h, Finset.prod_insert (by simp)]
theorem horn_empty (v m : ℤ → ℤ) (i j : ℤ) : i ≥ j → S.horn v m i j = 0 := by
  intro h; simp only [S.horn]; rw [Finset.Ico_eq_empty (by omega)]; simp
theorem horn_right (v m : ℤ → ℤ) (i j : ℤ) : i < j → S.horn v m i j = S.horn v m i (j - 1) + v (j - 1) * S.prodm m i (j - 1) := by
  intro h; simp only [S.horn]; rw [ico_right i j h, Finset.sum_insert (by simp)]; ring
theorem horn_left (v m : ℤ → ℤ) (i j : ℤ) : i < j → S.horn v m i j = v i + m i * S.horn v m (i + 1) j := by
  intro h; simp only [S.horn]
  rw [ico_left i j h, Finset.sum_insert (by simp), prodm_empty m i i (le_refl _), Finset.mul_sum]
  congr 1
  · ring
  · apply Finset.sum_congr rfl
    intro l hl
    rw [Finset.mem_Ico] at hl
    rw [prodm_left m i l (by omega)]; ring
theorem horn_store (v m : ℤ → ℤ) (i j k x : ℤ) : (k < i ∨ k ≥ j) → S.horn (Function.update v k x) m i j = S.horn v m i j := by
  intro h; simp only [S.horn]
  apply Finset.sum_congr rfl
  intro l hl
  rw [Finset.mem_Ico] at hl
  rw [Function.update_of_ne (by omega)]
theorem prodm_dvd (m : ℤ → ℤ) (k l : ℤ) : 0 ≤ k → k < l → m k ∣ S.prodm m 0 l := by
  intro h1 h2; exact Finset.dvd_prod_of_mem m (Finset.mem_Ico.mpr ⟨h1, h2⟩)
theorem horn_tail (v m : ℤ → ℤ) (n k : ℤ) : k ≥ 0 → k < n → m k ∣ (S.horn v m 0 n - S.horn v m 0 (k + 1)) := by
  intro h1 h2
  obtain ⟨t, rfl⟩ : ∃ t : ℕ, n = k + 1 + t := ⟨(n - (k + 1)).toNat, by omega⟩
  clear h2
  induction t with
  | zero => simp
  | succ t ih =>
    rw [horn_right v m 0 (k + 1 + ((t + 1 : ℕ) : ℤ)) (by push_cast; omega)]
    have e : k + 1 + ((t + 1 : ℕ) : ℤ) - 1 = k + 1 + (t : ℤ) := by push_cast; ring
    rw [e]
    have d := Dvd.dvd.mul_left (prodm_dvd m k (k + 1 + t) h1 (by omega)) (v (k + 1 + t))
    rw [add_sub_right_comm]
    exact dvd_add ih d
theorem pairwise_base (m : ℤ → ℤ) (k : ℤ) : k ≤ 1 → S.pairwise m k := by
  intro h i j h1 h2 h3; omega
theorem pairwise_mono (m : ℤ → ℤ) (k n : ℤ) : k ≤ n → S.pairwise m n → S.pairwise m k := by
  intro h hp i j h1 h2 h3; exact hp i j h1 h2 (by omega)
theorem pairwise_step (m : ℤ → ℤ) (k : ℤ) : k ≥ 0 → (S.pairwise m (k + 1) ↔ (S.pairwise m k ∧ S.gcd (S.prodm m 0 k) (m k) = 1)) := by
  intro h
  have key : S.gcd (S.prodm m 0 k) (m k) = 1 ↔ ∀ i : ℤ, 0 ≤ i → i < k → IsCoprime (m i) (m k) := by
    have : S.gcd (S.prodm m 0 k) (m k) = 1 ↔ IsCoprime (S.prodm m 0 k) (m k) := by
      rw [Int.isCoprime_iff_gcd_eq_one]; simp only [S.gcd]; omega
    rw [this]; simp only [S.prodm]
    rw [IsCoprime.prod_left_iff]
    simp only [Finset.mem_Ico]
    exact ⟨fun h i a b => h i ⟨a, b⟩, fun h i ⟨a, b⟩ => h i a b⟩
  rw [key]
  constructor
  · intro hp
    exact ⟨fun i j a b c => hp i j a b (by omega), fun i a b => hp i k a b (by omega)⟩
  · rintro ⟨hp, hq⟩ i j a b c
    rcases eq_or_lt_of_le (by omega : j ≤ k) with e | e
    · subst e; exact hq i a b
    · exact hp i j a b e
end L
