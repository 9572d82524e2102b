/-- specification functions over ℤ (the uninterpreted functions of vc/uf.py) -/
def S.gcd (a b : ℤ) : ℤ := (Int.gcd a b : ℤ)
def S.ipow (a b : ℤ) : ℤ := a ^ b.toNat
def S.fact (x : ℤ) : ℤ := (Nat.factorial x.toNat : ℤ)
def S.fib (x : ℤ) : ℤ := if x = -1 then 1 else (Nat.fib x.toNat : ℤ)
def S.cat (a b : ℤ) : ℤ := a * 256 ^ (Nat.log 256 b.toNat) + (b - 256 ^ (Nat.log 256 b.toNat))
/-- join of the k + 1 parts v o, .., v (o + k) -/
def S.joinN (s : ℤ) (v : ℤ → ℤ) (o : ℤ) : ℕ → ℤ
  | 0 => v o
  | k + 1 => S.cat (S.cat (S.joinN s v o k) s) (v (o + ((k + 1 : ℕ) : ℤ)))
def S.join (s : ℤ) (v : ℤ → ℤ) (o n : ℤ) : ℤ := S.joinN s v o (n.toNat - 1)

namespace L
theorem fact_0 : S.fact 0 = 1 := by simp [S.fact]
theorem fact_step (x : ℤ) : x ≥ 1 → S.fact x = x * S.fact (x - 1) := by
  intro h
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ x)
  obtain ⟨k, rfl⟩ : ∃ k, n = k + 1 := ⟨n - 1, by omega⟩
  have e : ((k + 1 : ℕ) : ℤ) - 1 = (k : ℤ) := by push_cast; ring
  simp only [S.fact, e, Int.toNat_natCast, Nat.factorial_succ]; push_cast; ring
theorem fact_pos (x : ℤ) : S.fact x ≥ 1 := by
  have := Nat.factorial_pos x.toNat
  simp only [S.fact]; omega

theorem ipow_0 (a : ℤ) : S.ipow a 0 = 1 := by simp [S.ipow]
theorem ipow_1 (a : ℤ) : S.ipow a 1 = a := by simp [S.ipow]
theorem ipow_zero (b : ℤ) : b ≥ 1 → S.ipow 0 b = 0 := by
  intro h; simp only [S.ipow]; exact zero_pow (by omega)
theorem ipow_one (b : ℤ) : b ≥ 0 → S.ipow 1 b = 1 := by intro _; simp [S.ipow]
theorem ipow_step (a b : ℤ) : b ≥ 1 → S.ipow a b = a * S.ipow a (b - 1) := by
  intro h; simp only [S.ipow]
  have : b.toNat = (b - 1).toNat + 1 := by omega
  rw [this, pow_succ]; ring
theorem ipow_m1 (b : ℤ) : b ≥ 0 → S.ipow (-1) b = (if b % 2 = 0 then 1 else -1) := by
  intro h; simp only [S.ipow]
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h
  simp only [Int.toNat_natCast]
  rcases Nat.even_or_odd n with e | o
  · rw [e.neg_one_pow, if_pos]; obtain ⟨k, rfl⟩ := e; omega
  · rw [o.neg_one_pow, if_neg]; obtain ⟨k, rfl⟩ := o; omega
theorem ipow_neg (a b : ℤ) : b ≥ 0 → S.ipow (-a) b = (if b % 2 = 0 then S.ipow a b else -(S.ipow a b)) := by
  intro h; simp only [S.ipow]
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h
  simp only [Int.toNat_natCast]
  rcases Nat.even_or_odd n with e | o
  · rw [e.neg_pow, if_pos]; obtain ⟨k, rfl⟩ := e; omega
  · rw [o.neg_pow, if_neg]; obtain ⟨k, rfl⟩ := o; omega
theorem ipow_sq (a b : ℤ) : b ≥ 0 → S.ipow (a * a) b = S.ipow a (2 * b) := by
  intro h; simp only [S.ipow]
  have : (2 * b).toNat = 2 * b.toNat := by omega
  rw [this, pow_mul, pow_two]

theorem ipow_half (a b : ℤ) : b ≥ 0 → S.ipow a b = (if b % 2 = 0 then S.ipow (a * a) (b / 2) else a * S.ipow (a * a) (b / 2)) := by
  intro h
  rw [ipow_sq a (b / 2) (by omega)]
  by_cases e : b % 2 = 0
  · rw [if_pos e]; congr 1; omega
  · rw [if_neg e, ipow_step a b (by omega)]; congr 2; omega

theorem fib_base : S.fib (-1) = 1 ∧ S.fib 0 = 0 ∧ S.fib 1 = 1 ∧ S.fib 2 = 1 := by
  refine ⟨?_, ?_, ?_, ?_⟩ <;> simp [S.fib]
theorem fib_nat (n : ℕ) : S.fib (n : ℤ) = (Nat.fib n : ℤ) := by
  simp only [S.fib]; rw [if_neg (by omega)]; simp
theorem fib_step (x : ℤ) : x ≥ 1 → S.fib x = S.fib (x - 1) + S.fib (x - 2) := by
  intro h
  rcases eq_or_lt_of_le h with e | e
  · subst e; simp [S.fib]
  · obtain ⟨k, rfl⟩ : ∃ k : ℕ, x = (k : ℤ) + 2 := ⟨(x - 2).toNat, by omega⟩
    have e1 : (k : ℤ) + 2 = ((k + 2 : ℕ) : ℤ) := by push_cast; ring
    have e2 : ((k + 2 : ℕ) : ℤ) - 1 = ((k + 1 : ℕ) : ℤ) := by push_cast; ring
    have e3 : ((k + 2 : ℕ) : ℤ) - 2 = (k : ℤ) := by push_cast; ring
    rw [e1, e2, e3, fib_nat, fib_nat, fib_nat, Nat.fib_add_two]; push_cast; ring
theorem fib_nonneg (x : ℤ) : S.fib x ≥ 0 := by simp only [S.fib]; split <;> omega
theorem fib_mono (x : ℤ) : x ≥ 0 → S.fib x ≤ S.fib (x + 1) := by
  intro h
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h
  have e : (n : ℤ) + 1 = ((n + 1 : ℕ) : ℤ) := by push_cast; ring
  rw [e, fib_nat, fib_nat]; exact_mod_cast Nat.fib_le_fib_succ
theorem fib_even (x k : ℤ) : k ≥ 0 → x = 2 * k → S.fib x = S.fib k * (2 * S.fib (k + 1) - S.fib k) := by
  rintro h rfl
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h
  have e1 : 2 * (n : ℤ) = ((2 * n : ℕ) : ℤ) := by push_cast; ring
  have e2 : (n : ℤ) + 1 = ((n + 1 : ℕ) : ℤ) := by push_cast; ring
  rw [e1, e2, fib_nat, fib_nat, fib_nat, Nat.fib_two_mul]
  have : Nat.fib n ≤ 2 * Nat.fib (n + 1) := le_trans Nat.fib_le_fib_succ (by omega)
  push_cast [Nat.cast_sub this]; ring
theorem fib_odd (x k : ℤ) : k ≥ 0 → x = 2 * k + 1 → S.fib x = S.fib (k + 1) * S.fib (k + 1) + S.fib k * S.fib k := by
  rintro h rfl
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h
  have e1 : 2 * (n : ℤ) + 1 = ((2 * n + 1 : ℕ) : ℤ) := by push_cast; ring
  have e2 : (n : ℤ) + 1 = ((n + 1 : ℕ) : ℤ) := by push_cast; ring
  rw [e1, e2, fib_nat, fib_nat, fib_nat, Nat.fib_two_mul_add_one]; push_cast; ring
theorem fib_odd2 (x k : ℤ) : k ≥ 1 → x = 2 * k - 1 → S.fib x = S.fib k * S.fib k + S.fib (k - 1) * S.fib (k - 1) := by
  intro h e
  have := fib_odd x (k - 1) (by omega) (by omega)
  simpa using this

theorem trem_dvd (a b : ℤ) : (Int.tmod a b = 0) ↔ (b ∣ a) := (Int.dvd_iff_tmod_eq_zero).symm
theorem gcd_cong (p q t : ℤ) : t ∣ (p - q) → S.gcd p t = S.gcd q t := by
  rintro ⟨c, hc⟩
  have : p = q + t * c := by linarith
  subst this
  simp [S.gcd]
theorem gcd_comm (a b : ℤ) : S.gcd a b = S.gcd b a := by simp only [S.gcd]; rw [Int.gcd_comm]
theorem gcd_sub (p k t : ℤ) : S.gcd (p - k * t) t = S.gcd p t := gcd_cong _ _ _ ⟨-k, by ring⟩
theorem gcd_one (a : ℤ) : S.gcd 1 a = 1 := by simp [S.gcd]
theorem gcd_zero (a : ℤ) : S.gcd 0 a = (if a ≥ 0 then a else -a) := by
  simp only [S.gcd, Int.gcd_zero_left]; split <;> omega
theorem gcd_nonneg (a b : ℤ) : S.gcd a b ≥ 0 := by simp only [S.gcd]; omega
theorem gcd_neg (a b : ℤ) : S.gcd (-a) b = S.gcd a b := by simp [S.gcd]
theorem gcd_bezout1 (a b x : ℤ) : b ∣ (a * x - 1) → S.gcd a b = 1 := by
  rintro ⟨c, hc⟩
  have h : IsCoprime a b := ⟨x, -c, by linarith⟩
  simp only [S.gcd]; rw [Int.isCoprime_iff_gcd_eq_one.mp h]; rfl
theorem gcd_zero_iff (a b : ℤ) : (S.gcd a b = 0) ↔ (a = 0 ∧ b = 0) := by
  simp only [S.gcd]; rw [Int.natCast_eq_zero, Int.gcd_eq_zero_iff]
theorem sq_mono (p q : ℤ) : p ≥ 0 → p ≤ q → p * p ≤ q * q := by intro h1 h2; nlinarith
theorem sq_ge (p : ℤ) : p ≥ 0 → p * p ≥ p := by
  intro h
  rcases eq_or_lt_of_le h with e | e
  · subst e; simp
  · nlinarith
theorem tdiv_lt (a b : ℤ) : a ≥ 1 → b ≥ 2 → (Int.tdiv a b < a ∧ Int.tdiv a b ≥ 0) := by
  intro h1 h2
  rw [Int.tdiv_eq_ediv_of_nonneg (by omega)]
  exact ⟨Int.ediv_lt_self_of_pos_of_ne_one (by omega) (by omega), Int.ediv_nonneg (by omega) (by omega)⟩
theorem tdiv_sq (a b : ℤ) : b ≥ 1 → a ≥ b * b → Int.tdiv a b ≥ b := by
  intro h1 h2
  rw [Int.tdiv_eq_ediv_of_nonneg (by nlinarith)]
  exact (Int.le_ediv_iff_mul_le (by omega)).mpr h2
theorem tri_bound (v : ℤ) : v ≥ 0 → v ≤ 18446744073709551615 → v * (v + 1) ≤ 340282366920938463444927863358058659840 := by
  intro h1 h2; nlinarith
-- facts the generator adds where the code divides with truncation, calls gcd or takes a square root
theorem tdiv_def (a b : ℤ) : ((b ≠ 0 → (a = b * Int.tdiv a b + Int.tmod a b ∧ Int.tmod a b < (if b ≥ 0 then b else -b) ∧ -(Int.tmod a b) < (if b ≥ 0 then b else -b))) ∧
    (a ≥ 0 → Int.tmod a b ≥ 0) ∧ (a ≤ 0 → Int.tmod a b ≤ 0) ∧ (a ≥ 0 ∧ b > 0 → Int.tdiv a b ≥ 0 ∧ Int.tdiv a b ≤ a) ∧ (a ≥ 0 ∧ b > a → Int.tdiv a b = 0)) := by
  have neg : a ≤ 0 → Int.tmod a b ≤ 0 := by
    intro h
    have := Int.tmod_nonneg b (by omega : 0 ≤ -a)
    rw [Int.neg_tmod] at this; omega
  have hab : (if b ≥ 0 then b else -b) = (b.natAbs : ℤ) := by split <;> omega
  refine ⟨?_, fun h => Int.tmod_nonneg b h, neg, ?_, ?_⟩
  · intro h
    rw [hab]
    refine ⟨(Int.mul_tdiv_add_tmod a b).symm, ?_, ?_⟩
    · rcases le_total 0 a with c | c
      · rw [Int.tmod_eq_emod_of_nonneg c]
        have := Int.emod_lt_abs a h
        rw [Int.abs_eq_natAbs] at this; exact this
      · have := neg c; omega
    · rcases le_total 0 a with c | c
      · have := Int.tmod_nonneg b c; omega
      · rw [← Int.neg_tmod, Int.tmod_eq_emod_of_nonneg (by omega)]
        have := Int.emod_lt_abs (-a) h
        rw [Int.abs_eq_natAbs] at this; exact this
  · rintro ⟨h1, h2⟩
    rw [Int.tdiv_eq_ediv_of_nonneg h1]
    exact ⟨Int.ediv_nonneg h1 (by omega), Int.ediv_le_self b h1⟩
  · rintro ⟨h1, h2⟩
    rw [Int.tdiv_eq_ediv_of_nonneg h1]
    exact Int.ediv_eq_zero_of_lt h1 h2
theorem gcd_def (a b : ℤ) : (S.gcd a b ≥ 0 ∧ S.gcd a b ∣ a ∧ S.gcd a b ∣ b ∧ (S.gcd a b = 0 ↔ (a = 0 ∧ b = 0))) :=
  ⟨gcd_nonneg a b, Int.gcd_dvd_left a b, Int.gcd_dvd_right a b, gcd_zero_iff a b⟩

-- texts by code: the bytes of the text in base 256 behind a leading 1 (vals.lit_code)
theorem cat_empty (x : ℤ) : S.cat 1 x = x := by simp only [S.cat]; ring
theorem join_one (s : ℤ) (v : ℤ → ℤ) (o n : ℤ) : n = 1 → S.join s v o n = v o := by
  intro h; subst h; simp [S.join, S.joinN]
theorem join_step (s : ℤ) (v : ℤ → ℤ) (o n : ℤ) : n ≥ 2 → S.join s v o n = S.cat (S.cat (S.join s v o (n - 1)) s) (v (o + n - 1)) := by
  intro h
  obtain ⟨k, rfl⟩ : ∃ k : ℕ, n = (k : ℤ) + 2 := ⟨(n - 2).toNat, by omega⟩
  have e1 : ((k : ℤ) + 2 - 1).toNat = k + 1 := by omega
  have e2 : ((k : ℤ) + 2).toNat = k + 2 := by omega
  have e3 : o + ((k : ℤ) + 2) - 1 = o + ((k + 1 : ℕ) : ℤ) := by push_cast; ring
  simp only [S.join, e1, e2, e3]
  show S.joinN s v o (k + 1 + 1 - 1 + 1 - 1) = _
  simp only [Nat.add_sub_cancel, S.joinN]
end L
