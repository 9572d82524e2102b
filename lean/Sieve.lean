section
open Classical
def S.prime (p : ℤ) : Prop := 0 ≤ p ∧ Nat.Prime p.toNat
/-- x stays in the sieve by the primes up to p: it is a prime, or no prime up to p divides it -/
def S.surv (p x : ℤ) : Prop := ∀ q : ℤ, S.prime q → q ≤ p → q ∣ x → x = q
/-- sum of the numbers 2..v left by the sieve with all primes up to p -/
noncomputable def S.sieve (v p : ℤ) : ℤ := ∑ x ∈ (Finset.Icc 2 v).filter (fun x => S.surv p x), x
noncomputable def S.psum (n : ℤ) : ℤ := ∑ x ∈ (Finset.Icc 2 n).filter (fun x => S.prime x), x
noncomputable def S.pcount (n : ℤ) : ℤ := ((Finset.Icc 2 n).filter (fun x => S.prime x)).card
def S.isqrt (n : ℤ) : ℤ := (Nat.sqrt n.toNat : ℤ)
/-- the floor quotients of n in descending order: n/1, .., n/r, n/r - 1, .., 0 with r = isqrt n -/
def S.lv (n j : ℤ) : ℤ := if j < S.isqrt n then Int.tdiv n (j + 1) else Int.tdiv n (S.isqrt n) - 1 - (j - S.isqrt n)
def S.key (n k : ℤ) : Prop := (0 ≤ k ∧ k < Int.tdiv n (S.isqrt n)) ∨ ∃ i, 1 ≤ i ∧ i ≤ S.isqrt n ∧ k = Int.tdiv n i
/-- position of a key in that list -/
def S.lidx (n k : ℤ) : ℤ := if k < Int.tdiv n (S.isqrt n) then S.isqrt n + (Int.tdiv n (S.isqrt n) - 1 - k) else Int.tdiv n k - 1

namespace L
theorem pcount_low (n : ℤ) : n < 2 → S.pcount n = 0 := by
  intro h; simp only [S.pcount]; rw [Finset.Icc_eq_empty (by omega)]; simp
theorem psum_low (n : ℤ) : n < 2 → S.psum n = 0 := by
  intro h; simp only [S.psum]; rw [Finset.Icc_eq_empty (by omega)]; simp
theorem psum_nonneg (n : ℤ) : S.psum n ≥ 0 := by
  simp only [S.psum]; apply Finset.sum_nonneg
  intro x hx; rw [Finset.mem_filter, Finset.mem_Icc] at hx; omega
theorem sum_all (n : ℕ) : 2 * ∑ x ∈ Finset.Icc (2 : ℤ) ((n : ℤ) + 1), x = ((n : ℤ) + 1) * ((n : ℤ) + 1 + 1) - 2 := by
  induction n with
  | zero => simp
  | succ k ih =>
    have e : Finset.Icc (2 : ℤ) (((k + 1 : ℕ) : ℤ) + 1) = insert (((k + 1 : ℕ) : ℤ) + 1) (Finset.Icc (2 : ℤ) ((k : ℤ) + 1)) := by
      ext x; simp only [Finset.mem_Icc, Finset.mem_insert]; push_cast; omega
    rw [e, Finset.sum_insert (by simp), mul_add, ih]; push_cast; ring
theorem sum_all' (v : ℤ) (h : v ≥ 1) : 2 * ∑ x ∈ Finset.Icc (2 : ℤ) v, x = v * (v + 1) - 2 := by
  obtain ⟨n, rfl⟩ : ∃ n : ℕ, v = (n : ℤ) + 1 := ⟨(v - 1).toNat, by omega⟩
  exact sum_all n
theorem sum_filter_le (v : ℤ) (P : ℤ → Prop) [DecidablePred P] : ∑ x ∈ (Finset.Icc (2 : ℤ) v).filter P, x ≤ ∑ x ∈ Finset.Icc (2 : ℤ) v, x := by
  apply Finset.sum_le_sum_of_subset_of_nonneg (Finset.filter_subset _ _)
  intro x hx _; rw [Finset.mem_Icc] at hx; omega
theorem psum_bound (n : ℤ) : n ≥ 0 → 2 * S.psum n ≤ n * (n + 1) := by
  intro h
  rcases eq_or_lt_of_le h with e | e
  · subst e; rw [psum_low _ (by omega)]; simp
  · have a := sum_all' n (by omega)
    classical
    have b := sum_filter_le n (fun x => S.prime x)
    simp only [S.psum]
    have : ∑ x ∈ (Finset.Icc (2 : ℤ) n).filter (fun x => S.prime x), x = ∑ x ∈ @Finset.filter ℤ (fun x => S.prime x) (fun a => Classical.propDecidable _) (Finset.Icc 2 n), x := by
      congr
    omega

-- floor quotients
theorem isqrt_sq (n : ℤ) (h : n ≥ 1) : S.isqrt n ≥ 1 ∧ S.isqrt n * S.isqrt n ≤ n ∧ n < (S.isqrt n + 1) * (S.isqrt n + 1) := by
  obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ n)
  simp only [S.isqrt, Int.toNat_natCast]
  refine ⟨?_, ?_, ?_⟩
  · have : 0 < Nat.sqrt m := Nat.sqrt_pos.mpr (by omega)
    omega
  · exact_mod_cast Nat.sqrt_le m
  · exact_mod_cast Nat.lt_succ_sqrt m
theorem isqrt_def (a : ℤ) : a ≥ 0 → (S.isqrt a ≥ 0 ∧ S.isqrt a * S.isqrt a ≤ a ∧ a < (S.isqrt a + 1) * (S.isqrt a + 1) ∧ S.isqrt a ≤ a) := by
  intro h
  rcases eq_or_lt_of_le h with e | e
  · subst e; simp [S.isqrt]
  · obtain ⟨x, y, z⟩ := isqrt_sq a (by omega)
    exact ⟨by omega, y, z, by nlinarith⟩
theorem td (n i : ℤ) (h : n ≥ 0) : Int.tdiv n i = n / i := Int.tdiv_eq_ediv_of_nonneg h
theorem isq_pos (n : ℤ) : n ≥ 1 → (S.isqrt n ≥ 1 ∧ S.isqrt n ≤ Int.tdiv n (S.isqrt n)) := by
  intro h
  obtain ⟨h1, h2, h3⟩ := isqrt_sq n h
  exact ⟨h1, by rw [td n _ (by omega)]; exact (Int.le_ediv_iff_mul_le (by omega)).mpr h2⟩
theorem lv_low (n j : ℤ) : n ≥ 1 → j ≥ 0 → j < S.isqrt n → S.lv n j = Int.tdiv n (j + 1) := by
  intro h1 h2 h3; simp only [S.lv]; rw [if_pos h3]
theorem lv_high (n j : ℤ) : n ≥ 1 → S.isqrt n ≤ j → j < S.isqrt n + Int.tdiv n (S.isqrt n) → S.lv n j = Int.tdiv n (S.isqrt n) - 1 - (j - S.isqrt n) := by
  intro h1 h2 h3; simp only [S.lv]; rw [if_neg (by omega)]
/-- for i up to the root, n/(n/i) = i -/
theorem div_div_small (n i : ℤ) (h : n ≥ 1) (h1 : 1 ≤ i) (h2 : i ≤ S.isqrt n) : n / (n / i) = i := by
  obtain ⟨g1, g2, g3⟩ := isqrt_sq n h
  have hi : i * i ≤ n := by nlinarith
  have q1 : i ≤ n / i := (Int.le_ediv_iff_mul_le (by omega)).mpr hi
  have d := Int.mul_ediv_add_emod n i
  have m1 := Int.emod_nonneg n (by omega : i ≠ 0)
  have m2 := Int.emod_lt_of_pos n (by omega : 0 < i)
  set q := n / i with hq
  apply le_antisymm
  · have : n / q < i + 1 := Int.ediv_lt_of_lt_mul (by omega) (by nlinarith)
    omega
  · exact (Int.le_ediv_iff_mul_le (by omega)).mpr (by nlinarith)
theorem ediv_anti (n i j : ℤ) (h : n ≥ 1) (h1 : 1 ≤ i) (h2 : i ≤ j) : n / j ≤ n / i := by
  apply (Int.le_ediv_iff_mul_le (by omega)).mpr
  have d := Int.mul_ediv_add_emod n j
  have m1 := Int.emod_nonneg n (by omega : j ≠ 0)
  have p : 0 ≤ n / j := Int.ediv_nonneg (by omega) (by omega)
  nlinarith
theorem lv_key (n j : ℤ) : n ≥ 1 → j ≥ 0 → j < S.isqrt n + Int.tdiv n (S.isqrt n) → (S.key n (S.lv n j) ∧ S.lidx n (S.lv n j) = j ∧ S.lv n j ≥ 0 ∧ S.lv n j ≤ n) := by
  intro h h1 h2
  obtain ⟨g1, g2, g3⟩ := isqrt_sq n h
  have ip := (isq_pos n h).2
  by_cases c : j < S.isqrt n
  · rw [lv_low n j h h1 c]
    have t := td n (j + 1) (by omega)
    have a := ediv_anti n (j + 1) (S.isqrt n) h (by omega) (by omega)
    have b := ediv_anti n 1 (j + 1) h (by omega) (by omega)
    rw [Int.ediv_one] at b
    rw [td n (S.isqrt n) (by omega)] at ip h2
    refine ⟨Or.inr ⟨j + 1, by omega, by omega, rfl⟩, ?_, by omega, by omega⟩
    simp only [S.lidx]; rw [t, td n (S.isqrt n) (by omega), if_neg (by omega), td n _ (by omega), div_div_small n (j + 1) h (by omega) (by omega)]; ring
  · rw [lv_high n j h (by omega) h2]
    have b := ediv_anti n 1 (S.isqrt n) h (by omega) (by omega)
    rw [Int.ediv_one] at b
    have t := td n (S.isqrt n) (by omega)
    refine ⟨Or.inl ⟨by omega, by omega⟩, ?_, by omega, by omega⟩
    simp only [S.lidx]; rw [if_pos (by omega)]; ring
theorem key_lv (n k : ℤ) : n ≥ 1 → S.key n k → (S.lidx n k ≥ 0 ∧ S.lidx n k < S.isqrt n + Int.tdiv n (S.isqrt n) ∧ S.lv n (S.lidx n k) = k ∧ k ≥ 0 ∧ k ≤ n) := by
  intro h hk
  obtain ⟨g1, g2, g3⟩ := isqrt_sq n h
  have ip := (isq_pos n h).2
  -- every key is at a position
  have ex : ∃ j, j ≥ 0 ∧ j < S.isqrt n + Int.tdiv n (S.isqrt n) ∧ S.lv n j = k := by
    rcases hk with ⟨a, b⟩ | ⟨i, a, b, c⟩
    · refine ⟨S.isqrt n + (Int.tdiv n (S.isqrt n) - 1 - k), by omega, by omega, ?_⟩
      rw [lv_high n _ h (by omega) (by omega)]; ring
    · refine ⟨i - 1, by omega, by omega, ?_⟩
      rw [lv_low n _ h (by omega) (by omega), c]; congr 1; ring
  obtain ⟨j, j1, j2, j3⟩ := ex
  obtain ⟨a, b, c, d⟩ := lv_key n j h j1 j2
  rw [j3] at b c d
  rw [b]; exact ⟨j1, j2, j3, c, d⟩
theorem key_small (n k : ℤ) : n ≥ 1 → k ≥ 0 → k ≤ Int.tdiv n (S.isqrt n) → S.key n k := by
  intro h h1 h2
  have ip := (isq_pos n h).1
  rcases eq_or_lt_of_le h2 with e | e
  · exact Or.inr ⟨S.isqrt n, by omega, le_refl _, e⟩
  · exact Or.inl ⟨h1, e⟩
theorem key_self (n : ℤ) : n ≥ 1 → S.key n n := by
  intro h
  exact Or.inr ⟨1, le_refl _, (isq_pos n h).1, by simp⟩
theorem key_div (n k p : ℤ) : n ≥ 1 → S.key n k → p ≥ 1 → S.key n (Int.tdiv k p) := by
  intro h hk hp
  obtain ⟨g1, g2, g3⟩ := isqrt_sq n h
  have hk0 := (key_lv n k h hk).2.2.2.1
  rw [td k p (by omega)]
  have nn : 0 ≤ k / p := Int.ediv_nonneg (by omega) (by omega)
  rcases hk with ⟨a, b⟩ | ⟨i, a, b, c⟩
  · have : k / p ≤ k := Int.ediv_le_self p a
    exact key_small n _ h nn (by omega)
  · rw [td n i (by omega)] at c
    have e : k / p = n / (i * p) := by rw [c]; exact Int.ediv_ediv_of_nonneg (by omega)
    by_cases s : i * p ≤ S.isqrt n
    · exact Or.inr ⟨i * p, by nlinarith, s, by rw [td n _ (by omega)]; exact e⟩
    · apply key_small n _ h nn
      rw [td n _ (by omega), e]; exact ediv_anti n _ _ h (by omega) (by omega)
theorem lv_anti (n i j : ℤ) : n ≥ 1 → i ≥ 0 → i < j → j < S.isqrt n + Int.tdiv n (S.isqrt n) → S.lv n j < S.lv n i := by
  intro h h1 h2 h3
  obtain ⟨g1, g2, g3⟩ := isqrt_sq n h
  by_cases c : j < S.isqrt n
  · rw [lv_low n j h (by omega) c, lv_low n i h h1 (by omega), td n _ (by omega), td n _ (by omega)]
    have a := ediv_anti n (i + 1) (j + 1) h (by omega) (by omega)
    have d1 := div_div_small n (i + 1) h (by omega) (by omega)
    have d2 := div_div_small n (j + 1) h (by omega) (by omega)
    rcases eq_or_lt_of_le a with e | e
    · rw [e] at d2; omega
    · exact e
  · rw [lv_high n j h (by omega) h3]
    by_cases c2 : i < S.isqrt n
    · rw [lv_low n i h h1 c2, td n (i + 1) (by omega), td n (S.isqrt n) (by omega)]
      have a := ediv_anti n (i + 1) (S.isqrt n) h (by omega) (by omega)
      omega
    · rw [lv_high n i h (by omega) (by omega)]; omega
theorem key_anti (n a b : ℤ) : n ≥ 1 → S.key n a → S.key n b → a < b → S.lidx n b < S.lidx n a := by
  intro h ha hb hab
  obtain ⟨a1, a2, a3, _, _⟩ := key_lv n a h ha
  obtain ⟨b1, b2, b3, _, _⟩ := key_lv n b h hb
  by_contra c
  rcases eq_or_lt_of_le (by omega : S.lidx n a ≤ S.lidx n b) with e | e
  · rw [e, b3] at a3; omega
  · have := lv_anti n _ _ h a1 e b2
    omega

-- the sieve
theorem sieve_nonneg (v p : ℤ) : S.sieve v p ≥ 0 := by
  simp only [S.sieve]; apply Finset.sum_nonneg
  intro x hx; rw [Finset.mem_filter, Finset.mem_Icc] at hx; omega
theorem prime_two_le (q : ℤ) (h : S.prime q) : 2 ≤ q := by
  have := h.2.two_le; have := h.1; omega
theorem surv_one (x : ℤ) : S.surv 1 x := by
  intro q hq h; have := prime_two_le q hq; omega
theorem sieve_1 (v : ℤ) : v ≥ 1 → 2 * S.sieve v 1 = v * (v + 1) - 2 := by
  intro h
  rw [← sum_all' v h]; simp only [S.sieve]
  rw [Finset.filter_true_of_mem]
  intro x _; exact surv_one x
theorem sieve_mono (a b p : ℤ) : a ≤ b → S.sieve a p ≤ S.sieve b p := by
  intro h; simp only [S.sieve]
  apply Finset.sum_le_sum_of_subset_of_nonneg
  · exact Finset.filter_subset_filter _ (Finset.Icc_subset_Icc (le_refl _) h)
  · intro x hx _; rw [Finset.mem_filter, Finset.mem_Icc] at hx; omega
theorem sieve_bound64 (v p : ℤ) : v ≤ 18446744073709551615 → S.sieve v p < 170141183460469231731687303715884105728 := by
  intro h
  have a := sieve_mono v 18446744073709551615 p h
  have b := sum_all' 18446744073709551615 (by norm_num)
  have c : S.sieve 18446744073709551615 p ≤ ∑ x ∈ Finset.Icc (2 : ℤ) 18446744073709551615, x := by
    simp only [S.sieve]
    apply Finset.sum_le_sum_of_subset_of_nonneg (Finset.filter_subset _ _)
    intro x hx _; rw [Finset.mem_Icc] at hx; omega
  norm_num at b
  omega
/-- a number without a small prime factor has a prime factor of its own -/
theorem exists_prime_dvd (x : ℤ) (h : 2 ≤ x) : ∃ q, S.prime q ∧ q ∣ x ∧ (S.prime x ∨ q * q ≤ x) := by
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ x)
  have hn : n ≠ 1 := by omega
  refine ⟨(n.minFac : ℤ), ⟨by omega, by simpa using Nat.minFac_prime hn⟩, by exact_mod_cast Nat.minFac_dvd n, ?_⟩
  by_cases c : n.Prime
  · exact Or.inl ⟨by omega, by simpa using c⟩
  · right
    have := Nat.minFac_sq_le_self (by omega : 0 < n) c
    rw [pow_two] at this; exact_mod_cast this
theorem prime_dvd_prime (p q : ℤ) (hp : S.prime p) (hq : S.prime q) (h : q ∣ p) : p = q := by
  obtain ⟨a, rfl⟩ := Int.eq_ofNat_of_zero_le hp.1
  obtain ⟨b, rfl⟩ := Int.eq_ofNat_of_zero_le hq.1
  have := (Nat.prime_dvd_prime_iff_eq (by simpa using hq.2) (by simpa using hp.2)).mp (by exact_mod_cast h)
  omega
theorem surv_prime (p x : ℤ) (h : S.prime x) : S.surv p x := fun q hq _ d => prime_dvd_prime x q h hq d
theorem surv_sq (p x : ℤ) (hx : 2 ≤ x) (h : (p + 1) * (p + 1) > x) (hp : p ≥ 0) : S.surv p x ↔ S.prime x := by
  constructor
  · intro s
    obtain ⟨q, hq, hd, c⟩ := exists_prime_dvd x hx
    rcases c with c | c
    · exact c
    · have q2 := prime_two_le q hq
      have : q ≤ p := by by_contra hh; nlinarith
      rw [s q hq this hd]; exact hq
  · exact surv_prime p x
theorem sieve_end (v p : ℤ) : p ≥ 0 → (p + 1) * (p + 1) > v → S.sieve v p = S.psum v := by
  intro hp h; simp only [S.sieve, S.psum]
  congr 1
  apply Finset.filter_congr
  intro x hx; rw [Finset.mem_Icc] at hx
  exact surv_sq p x hx.1 (by omega) hp
/-- sieving by p only matters for p itself -/
theorem surv_step (p x : ℤ) : S.surv p x ↔ (S.surv (p - 1) x ∧ (S.prime p → p ∣ x → x = p)) := by
  constructor
  · intro s; exact ⟨fun q hq h d => s q hq (by omega) d, fun hp d => s p hp (le_refl _) d⟩
  · rintro ⟨s, t⟩ q hq h d
    rcases eq_or_lt_of_le h with e | e
    · subst e; exact t hq d
    · exact s q hq (by omega) d
/-- the multiples of p removed at p are p * m with m >= p left by the smaller primes -/
theorem surv_mul (p m : ℤ) (hp : S.prime p) (hm : 2 ≤ m) : S.surv (p - 1) (p * m) ↔ (p ≤ m ∧ S.surv (p - 1) m) := by
  have p2 := prime_two_le p hp
  constructor
  · intro s
    have nd : ∀ q, S.prime q → q ≤ p - 1 → ¬ q ∣ m := by
      intro q hq h d
      have := s q hq h (Dvd.dvd.mul_left d p)
      have q2 := prime_two_le q hq
      nlinarith
    constructor
    · obtain ⟨q, hq, hd, _⟩ := exists_prime_dvd m hm
      have : ¬ q ≤ p - 1 := fun h => nd q hq h hd
      have := Int.le_of_dvd (by omega) hd
      omega
    · intro q hq h d; exact absurd d (nd q hq h)
  · rintro ⟨a, s⟩ q hq h d
    exfalso
    have hpr : Prime (q : ℤ) := by
      obtain ⟨b, rfl⟩ := Int.eq_ofNat_of_zero_le hq.1
      exact Nat.prime_iff_prime_int.mp (by simpa using hq.2)
    rcases hpr.dvd_or_dvd d with e | e
    · have := prime_dvd_prime p q hp hq e; omega
    · have := s q hq h e; omega
theorem sieve_skip (v p : ℤ) : p ≥ 2 → ((¬ S.prime p) ∨ p * p > v) → S.sieve v p = S.sieve v (p - 1) := by
  intro hp h; simp only [S.sieve]
  congr 1
  apply Finset.filter_congr
  intro x hx; rw [Finset.mem_Icc] at hx
  rw [surv_step p x]
  constructor
  · exact fun a => a.1
  · intro s
    refine ⟨s, fun hpr d => ?_⟩
    rcases h with h | h
    · exact absurd hpr h
    · obtain ⟨m, rfl⟩ := d
      by_contra ne
      have m1 : 0 < m := by nlinarith
      have m2 : m ≠ 1 := by rintro rfl; exact ne (by ring)
      have := ((surv_mul p m hpr (by omega)).mp s).1
      nlinarith
theorem sieve_prime (p : ℤ) : p ≥ 2 → (S.prime p ↔ S.sieve p (p - 1) > S.sieve (p - 1) (p - 1)) := by
  intro hp

  have e : Finset.Icc (2 : ℤ) p = insert p (Finset.Icc (2 : ℤ) (p - 1)) := by
    ext x; simp only [Finset.mem_Icc, Finset.mem_insert]; omega
  by_cases c : S.surv (p - 1) p
  · have hpr : S.prime p := by
      obtain ⟨q, hq, hd, k⟩ := exists_prime_dvd p hp
      have := Int.le_of_dvd (by omega) hd
      rcases eq_or_lt_of_le this with e | e
      · subst e; exact hq
      · rw [c q hq (by omega) hd]; exact hq
    refine ⟨fun _ => ?_, fun _ => hpr⟩
    simp only [S.sieve]
    rw [e, Finset.filter_insert, if_pos c, Finset.sum_insert (by simp)]; omega
  · have hnp : ¬ S.prime p := fun h => c (surv_prime _ _ h)
    refine ⟨fun h => absurd h hnp, fun h => ?_⟩
    exfalso
    simp only [S.sieve] at h
    rw [e, Finset.filter_insert, if_neg c] at h; omega
theorem sieve_step (v p : ℤ) : p ≥ 2 → S.prime p → p * p ≤ v → S.sieve v p = S.sieve v (p - 1) - p * (S.sieve (Int.tdiv v p) (p - 1) - S.sieve (p - 1) (p - 1)) := by
  intro hp hpr hv

  rw [td v p (by nlinarith)]
  have vp : p ≤ v / p := (Int.le_ediv_iff_mul_le (by omega)).mpr hv
  -- inner difference: survivors in [p, v/p]
  have inner : S.sieve (v / p) (p - 1) - S.sieve (p - 1) (p - 1) = ∑ x ∈ (Finset.Icc p (v / p)).filter (fun x => S.surv (p - 1) x), x := by
    simp only [S.sieve]
    have e : (Finset.Icc (2 : ℤ) (v / p)).filter (fun x => S.surv (p - 1) x) = (Finset.Icc (2 : ℤ) (p - 1)).filter (fun x => S.surv (p - 1) x) ∪ (Finset.Icc p (v / p)).filter (fun x => S.surv (p - 1) x) := by
      ext x; simp only [Finset.mem_union, Finset.mem_filter, Finset.mem_Icc]
      constructor
      · rintro ⟨a, b⟩
        by_cases x ≤ p - 1
        · exact Or.inl ⟨by omega, b⟩
        · exact Or.inr ⟨by omega, b⟩
      · rintro (⟨a, b⟩ | ⟨a, b⟩) <;> exact ⟨by omega, b⟩
    rw [e, Finset.sum_union]
    · ring
    · rw [Finset.disjoint_left]; intro x hx hy
      simp only [Finset.mem_filter, Finset.mem_Icc] at hx hy; omega
  rw [inner, Finset.mul_sum]
  -- outer difference: the removed multiples
  have outer : S.sieve v (p - 1) = S.sieve v p + ∑ x ∈ (Finset.Icc (2 : ℤ) v).filter (fun x => S.surv (p - 1) x ∧ p ∣ x ∧ x ≠ p), x := by
    simp only [S.sieve]
    have e : (Finset.Icc (2 : ℤ) v).filter (fun x => S.surv (p - 1) x) = (Finset.Icc (2 : ℤ) v).filter (fun x => S.surv p x) ∪ (Finset.Icc (2 : ℤ) v).filter (fun x => S.surv (p - 1) x ∧ p ∣ x ∧ x ≠ p) := by
      ext x; simp only [Finset.mem_union, Finset.mem_filter, Finset.mem_Icc]
      rw [surv_step p x]
      tauto
    rw [e, Finset.sum_union]
    rw [Finset.disjoint_left]; intro x hx hy
    simp only [Finset.mem_filter, Finset.mem_Icc] at hx hy
    exact hy.2.2.2 (hx.2 p hpr (le_refl _) hy.2.2.1)
  rw [outer]
  have bij : ∑ x ∈ (Finset.Icc (2 : ℤ) v).filter (fun x => S.surv (p - 1) x ∧ p ∣ x ∧ x ≠ p), x = ∑ x ∈ (Finset.Icc p (v / p)).filter (fun x => S.surv (p - 1) x), p * x := by
    symm
    apply Finset.sum_bij (fun x _ => p * x)
    · intro x hx
      simp only [Finset.mem_filter, Finset.mem_Icc] at hx ⊢
      have b := (Int.le_ediv_iff_mul_le (by omega : 0 < p)).mp hx.1.2
      refine ⟨⟨by nlinarith, by linarith [mul_comm x p]⟩, (surv_mul p x hpr (by omega)).mpr ⟨hx.1.1, hx.2⟩, Dvd.intro _ rfl, ?_⟩
      nlinarith
    · intro a _ b _ h; exact mul_left_cancel₀ (by omega : p ≠ 0) h
    · intro x hx
      simp only [Finset.mem_filter, Finset.mem_Icc] at hx
      obtain ⟨⟨x2, xv⟩, s, ⟨m, rfl⟩, ne⟩ := hx
      have m1 : 0 < m := by nlinarith
      have m2 : m ≠ 1 := by rintro rfl; exact ne (by ring)
      obtain ⟨pm, sm⟩ := (surv_mul p m hpr (by omega)).mp s
      refine ⟨m, ?_, rfl⟩
      simp only [Finset.mem_filter, Finset.mem_Icc]
      exact ⟨⟨pm, (Int.le_ediv_iff_mul_le (by omega)).mpr (by linarith [mul_comm m p])⟩, sm⟩
    · intro x _; rfl
  rw [bij]; ring
end L
end
