import Mathlib
set_option maxHeartbeats 400000

/-- A binary floating-point format: precision `p`, exponents of the unit in the last place from `emin` to `E`. -/
structure Fmt where
  p : ℕ
  emin : ℤ
  E : ℤ
  hp : 3 ≤ p
  h0 : emin ≤ 0
  h1 : 1 ≤ E
  h2 : p + emin + 1 ≤ E
  h3 : 100 ≤ E

namespace Fmt
/-- the finite numbers of the format -/
def S (F : Fmt) : Set ℝ := {x | ∃ m e : ℤ, |m| < 2 ^ F.p ∧ F.emin ≤ e ∧ e ≤ F.E ∧ x = m * (2:ℝ) ^ e}
/-- the largest number -/
noncomputable def MAX (F : Fmt) : ℝ := ((2:ℝ) ^ F.p - 1) * 2 ^ F.E
/-- half a unit in the last place of the largest number -/
noncomputable def BIG (F : Fmt) : ℝ := (2:ℝ) ^ (F.E - 1)
end Fmt

def F32 : Fmt := ⟨24, -149, 104, by norm_num, by norm_num, by norm_num, by norm_num, by norm_num⟩
def F64 : Fmt := ⟨53, -1074, 971, by norm_num, by norm_num, by norm_num, by norm_num, by norm_num⟩
def F80 : Fmt := ⟨64, -16445, 16320, by norm_num, by norm_num, by norm_num, by norm_num, by norm_num⟩

/-- t rounded downward: the largest number of the format that is at most t (below all numbers, where the operation gives
-infinity, the real part is of no interest; the least number is chosen) -/
def IsRd (F : Fmt) (t d : ℝ) : Prop := d ∈ F.S ∧ (∀ x ∈ F.S, x ≤ t → x ≤ d) ∧ (-F.MAX ≤ t → d ≤ t) ∧ (t < -F.MAX → d = -F.MAX)
/-- t rounded to nearest: a number of the format closest to t -/
def IsRn (F : Fmt) (t n : ℝ) : Prop := n ∈ F.S ∧ (∀ x ∈ F.S, |n - t| ≤ |x - t|) 

/-- t^n for n ≥ 0 -/
noncomputable def pw (t : ℝ) (n : ℤ) : ℝ := t ^ n.toNat
/-- the non-negative n-th root -/
noncomputable def rt (v : ℝ) (n : ℤ) : ℝ := |v| ^ ((n:ℝ)⁻¹)

section fmt
variable (F : Fmt)

theorem two_pos' : (0:ℝ) < 2 := by norm_num

theorem mem_neg0 {F : Fmt} {x : ℝ} (h : x ∈ F.S) : -x ∈ F.S := by
  obtain ⟨m, e, hm, h1, h2, rfl⟩ := h
  exact ⟨-m, e, by rwa [abs_neg], h1, h2, by push_cast; ring⟩

theorem mem_int0 (k : ℤ) (h : |k| ≤ 2 ^ F.p) : (k : ℝ) ∈ F.S := by
  have hp := F.hp
  rcases lt_or_eq_of_le h with h | h
  · exact ⟨k, 0, h, F.h0, by linarith [F.h1], by simp⟩
  · obtain ⟨q, hq⟩ : ∃ q, F.p = q + 1 := ⟨F.p - 1, by omega⟩
    have h1 : (2:ℤ) ^ q < 2 ^ F.p := by rw [hq]; exact pow_lt_pow_right₀ (by norm_num) (by omega)
    rcases abs_choice k with hk | hk
    · refine ⟨2 ^ q, 1, by rw [abs_of_pos (by positivity)]; exact h1, by linarith [F.h0], F.h1, ?_⟩
      have : k = 2 ^ q * 2 := by rw [← hk, h, hq, pow_succ]
      rw [this]; push_cast; simp
    · refine ⟨-2 ^ q, 1, by rw [abs_neg, abs_of_pos (by positivity)]; exact h1, by linarith [F.h0], F.h1, ?_⟩
      have : k = -(2 ^ q * 2) := by have : -k = 2 ^ q * 2 := by rw [← hk, h, hq, pow_succ]
                                    linarith
      rw [this]; push_cast; simp

theorem two_pow_ge (F : Fmt) : (8:ℤ) ≤ 2 ^ F.p := by
  calc (8:ℤ) = 2 ^ 3 := by norm_num
    _ ≤ 2 ^ F.p := pow_le_pow_right₀ (by norm_num) F.hp

theorem mem_zero : (0:ℝ) ∈ F.S := by
  have := mem_int0 F 0 (by simp); simpa using this
theorem mem_one : (1:ℝ) ∈ F.S := by
  have := mem_int0 F 1 (by have := two_pow_ge F; simp; omega); simpa using this

theorem mem_max : F.MAX ∈ F.S := by
  refine ⟨2 ^ F.p - 1, F.E, ?_, by linarith [F.h0, F.h1], le_refl _, by simp [Fmt.MAX]⟩
  have := two_pow_ge F
  rw [abs_of_nonneg (by omega)]; omega

theorem zpow_le_E {e : ℤ} (h : e ≤ F.E) : (2:ℝ) ^ e ≤ 2 ^ F.E := zpow_le_zpow_right₀ (by norm_num) h

theorem le_max {x : ℝ} (h : x ∈ F.S) : x ≤ F.MAX := by
  obtain ⟨m, e, hm, h1, h2, rfl⟩ := h
  have a : (m:ℝ) ≤ 2 ^ F.p - 1 := by
    have : m ≤ 2 ^ F.p - 1 := by have := le_abs_self m; omega
    exact_mod_cast this
  have b := zpow_le_E F h2
  have c : (0:ℝ) < 2 ^ e := by positivity
  have d : (0:ℝ) ≤ 2 ^ F.p - 1 := by
    have := two_pow_ge F; have : (0:ℤ) ≤ 2 ^ F.p - 1 := by omega
    exact_mod_cast this
  calc (m:ℝ) * 2 ^ e ≤ (2 ^ F.p - 1) * 2 ^ e := by nlinarith
    _ ≤ (2 ^ F.p - 1) * 2 ^ F.E := by nlinarith
    _ = F.MAX := rfl

theorem neg_max_le {x : ℝ} (h : x ∈ F.S) : -F.MAX ≤ x := by
  have := le_max F (mem_neg0 h); linarith

theorem finite_S : F.S.Finite := by
  have : F.S ⊆ (fun q : ℤ × ℤ => (q.1:ℝ) * (2:ℝ) ^ q.2) '' (Set.Icc (-2 ^ F.p) (2 ^ F.p) ×ˢ Set.Icc F.emin F.E) := by
    rintro x ⟨m, e, hm, h1, h2, rfl⟩
    refine ⟨(m, e), ⟨?_, ⟨h1, h2⟩⟩, rfl⟩
    have := abs_lt.mp hm
    exact ⟨by simpa using this.1.le, by simpa using this.2.le⟩
  exact ((Set.finite_Icc _ _).prod (Set.finite_Icc _ _)).image _ |>.subset this

theorem exists_rd (t : ℝ) : ∃ d, IsRd F t d := by
  by_cases h : -F.MAX ≤ t
  · have hf : (F.S ∩ {x | x ≤ t}).Finite := (finite_S F).subset Set.inter_subset_left
    obtain ⟨d, hd, hm⟩ := Set.exists_max_image (F.S ∩ {x | x ≤ t}) id hf ⟨-F.MAX, mem_neg0 (mem_max F), h⟩
    exact ⟨d, hd.1, fun x hx hxt => hm x ⟨hx, hxt⟩, fun _ => hd.2, fun h' => absurd h (not_le.mpr h')⟩
  · exact ⟨-F.MAX, mem_neg0 (mem_max F), fun x hx hxt => absurd (le_trans (neg_max_le F hx) hxt) h, fun h' => absurd h' h, fun _ => rfl⟩

theorem exists_rn (t : ℝ) : ∃ n, IsRn F t n := by
  obtain ⟨n, hn, hm⟩ := Set.exists_min_image F.S (fun x => |x - t|) (finite_S F) ⟨0, mem_zero F⟩
  exact ⟨n, hn, hm⟩

noncomputable def rd (t : ℝ) : ℝ := (exists_rd F t).choose
noncomputable def rn (t : ℝ) : ℝ := (exists_rn F t).choose
theorem rd_spec (t : ℝ) : IsRd F t (rd F t) := (exists_rd F t).choose_spec
theorem rn_spec (t : ℝ) : IsRn F t (rn F t) := (exists_rn F t).choose_spec

theorem rd_le_of_mem {t x : ℝ} (hx : x ∈ F.S) (h : x ≤ t) : rd F t ≤ t := by
  have := rd_spec F t
  exact this.2.2.1 (le_trans (neg_max_le F hx) h)

theorem rd_of_mem {t : ℝ} (h : t ∈ F.S) : rd F t = t :=
  le_antisymm (rd_le_of_mem F h le_rfl) ((rd_spec F t).2.1 t h le_rfl)

theorem rn_of_mem {t : ℝ} (h : t ∈ F.S) : rn F t = t := by
  have := (rn_spec F t).2 t h
  simp at this; linarith

theorem rn_le_side {t q : ℝ} (hq : q ∈ F.S) (h : q ≤ t) : q ≤ rn F t ∧ rn F t - t ≤ t - q := by
  have := (rn_spec F t).2 q hq
  rw [abs_of_nonpos (by linarith : q - t ≤ 0)] at this
  have h2 := abs_le.mp this
  constructor <;> linarith

theorem rn_ge_side {t q : ℝ} (hq : q ∈ F.S) (h : t ≤ q) : rn F t ≤ q ∧ t - rn F t ≤ q - t := by
  have := (rn_spec F t).2 q hq
  rw [abs_of_nonneg (by linarith : 0 ≤ q - t)] at this
  have h2 := abs_le.mp this
  constructor <;> linarith

theorem mem_integer_part0 (x : ℝ) (k : ℤ) (h : x ∈ F.S) (hk : |(k : ℝ) - x| < 1) : (k : ℝ) ∈ F.S := by
  obtain ⟨m, e, hm, h1, h2, rfl⟩ := id h
  by_cases he : 0 ≤ e
  · obtain ⟨a, rfl⟩ := Int.eq_ofNat_of_zero_le he
    have hx : (m:ℝ) * 2 ^ ((a:ℕ):ℤ) = ((m * 2 ^ a : ℤ) : ℝ) := by push_cast; simp
    rw [hx] at hk
    have : |k - m * 2 ^ a| < 1 := by exact_mod_cast hk
    have := abs_lt.mp this
    have hk2 : k = m * 2 ^ a := by omega
    rw [hk2]; rwa [hx] at h
  · apply mem_int0
    have he : e ≤ -1 := by omega
    have c : (0:ℝ) < 2 ^ e := by positivity
    have c2 : (2:ℝ) ^ e ≤ 2 ^ (-1:ℤ) := zpow_le_zpow_right₀ (by norm_num) he
    have c3 : (2:ℝ) ^ (-1:ℤ) = 1/2 := by norm_num
    rw [c3] at c2
    have hmr : |(m:ℝ)| < 2 ^ F.p := by exact_mod_cast hm
    have hx : |(m:ℝ) * 2 ^ e| ≤ |(m:ℝ)| * (1/2) := by
      rw [abs_mul, abs_of_pos c]; exact mul_le_mul_of_nonneg_left c2 (abs_nonneg _)
    have tri : |(k:ℝ)| < 1 + |(m:ℝ)| * (1/2) := by
      have := abs_sub_abs_le_abs_sub (k:ℝ) ((m:ℝ) * 2 ^ e)
      linarith
    have h8 : (8:ℝ) ≤ 2 ^ F.p := by exact_mod_cast two_pow_ge F
    have : |(k:ℝ)| ≤ 2 ^ F.p := by nlinarith
    exact_mod_cast this

theorem MAX_int : ∃ j : ℤ, F.MAX = j := by
  obtain ⟨a, ha⟩ := Int.eq_ofNat_of_zero_le (show 0 ≤ F.E by linarith [F.h1])
  exact ⟨(2 ^ F.p - 1) * 2 ^ a, by rw [Fmt.MAX, ha]; push_cast; simp⟩

theorem mem_double {r : ℝ} (h : r ∈ F.S) (hM : |2 * r| ≤ F.MAX) : 2 * r ∈ F.S := by
  obtain ⟨m, e, hm, h1, h2, rfl⟩ := id h
  rcases lt_or_eq_of_le h2 with h2 | h2
  · exact ⟨m, e + 1, hm, by omega, by omega, by rw [zpow_add₀ (by norm_num)]; simp; ring⟩
  · subst h2
    refine ⟨2 * m, F.E, ?_, h1, le_refl _, by push_cast; ring⟩
    have c : (0:ℝ) < 2 ^ F.E := by positivity
    have : |((2 * m : ℤ):ℝ)| * 2 ^ F.E ≤ ((2:ℝ) ^ F.p - 1) * 2 ^ F.E := by
      have hh : |((2 * m : ℤ):ℝ)| * 2 ^ F.E = |2 * ((m:ℝ) * 2 ^ F.E)| := by
        rw [← abs_of_pos c, ← abs_mul, abs_of_pos c]; push_cast; ring_nf
      rw [hh]; exact hM
    have h3 : |((2 * m : ℤ):ℝ)| ≤ (2:ℝ) ^ F.p - 1 := le_of_mul_le_mul_right this c
    have h4 : |2 * m| ≤ 2 ^ F.p - 1 := by exact_mod_cast h3
    omega

theorem mem_half {r : ℝ} (h : r ∈ F.S) (hB : F.BIG ≤ |r|) : r / 2 ∈ F.S := by
  obtain ⟨m, e, hm, h1, h2, rfl⟩ := id h
  rcases lt_or_eq_of_le h1 with h1 | h1
  · exact ⟨m, e - 1, hm, by omega, by omega, by rw [zpow_sub₀ (by norm_num)]; simp; ring⟩
  · exfalso
    have c : (0:ℝ) < 2 ^ e := by positivity
    have hmr : |(m:ℝ)| < 2 ^ F.p := by exact_mod_cast hm
    have h3 : |(m:ℝ) * 2 ^ e| < 2 ^ F.p * 2 ^ e := by
      rw [abs_mul, abs_of_pos c]; exact mul_lt_mul_of_pos_right hmr c
    have h4 : (2:ℝ) ^ F.p * 2 ^ e = 2 ^ ((F.p:ℤ) + e) := by rw [zpow_add₀ (by norm_num)]; simp
    have h5 : (2:ℝ) ^ ((F.p:ℤ) + e) ≤ 2 ^ (F.E - 1) := zpow_le_zpow_right₀ (by norm_num) (by have := F.h2; omega)
    rw [h4] at h3
    have : F.BIG = 2 ^ (F.E - 1) := rfl
    linarith

theorem int_exact0 (k : ℤ) (h : -(2:ℝ) ^ F.p ≤ k ∧ (k:ℝ) ≤ 2 ^ F.p) : (k:ℝ) ∈ F.S := by
  apply mem_int0
  have : |(k:ℝ)| ≤ 2 ^ F.p := abs_le.mpr h
  exact_mod_cast this

theorem int_rd0 (k : ℤ) : ∃ j : ℤ, rd F k = j := by
  obtain ⟨h1, h2, h3, h4⟩ := rd_spec F (k:ℝ)
  by_cases h : -F.MAX ≤ (k:ℝ)
  · refine ⟨⌈rd F k⌉, ?_⟩
    have a := Int.le_ceil (rd F k)
    have b := Int.ceil_lt_add_one (rd F k)
    have m : ((⌈rd F k⌉ : ℤ) : ℝ) ∈ F.S := mem_integer_part0 F (rd F k) _ h1 (by rw [abs_lt]; constructor <;> linarith)
    have le : ⌈rd F k⌉ ≤ k := Int.ceil_le.mpr (h3 h)
    have := h2 _ m (by exact_mod_cast le)
    linarith
  · obtain ⟨j, hj⟩ := MAX_int F
    exact ⟨-j, by rw [h4 (not_le.mp h), hj]; push_cast; ring⟩
end fmt

section powers
theorem pw_nat (t : ℝ) (k : ℕ) : pw t (k:ℤ) = t ^ k := by simp [pw]

theorem pw_neg (a : ℝ) (n : ℤ) (h : 0 ≤ n) : pw a n = if n % 2 = 0 then pw (-a) n else -pw (-a) n := by
  obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le h
  rw [pw_nat, pw_nat]
  split_ifs with hk
  · have : Even k := by rw [Nat.even_iff]; omega
    rw [this.neg_pow]
  · have : Odd k := by rw [Nat.odd_iff]; omega
    rw [this.neg_pow, neg_neg]

theorem pw_base (t : ℝ) (m n : ℤ) : ((m ≥ (0:ℤ)) ∧ (n = m + 1) → pw t n = t * pw t m) ∧ ((m ≥ (0:ℤ)) ∧ (n = m + m) → pw t n = pw t m * pw t m) := by
  constructor
  · rintro ⟨h, rfl⟩
    obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le h
    have : ((k:ℤ) + 1) = ((k + 1 : ℕ) : ℤ) := by push_cast; rfl
    rw [this, pw_nat, pw_nat, pow_succ, mul_comm]
  · rintro ⟨h, rfl⟩
    obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le h
    have : ((k:ℤ) + k) = ((k + k : ℕ) : ℤ) := by push_cast; rfl
    rw [this, pw_nat, pw_nat, pow_add]

theorem pw_pair1 (t s : ℝ) (m n : ℤ) :
    ((((m ≥ (0:ℤ)) ∧ (m = n)) ∧ ((0:ℝ) ≤ t) ∧ (t ≤ s)) → ((pw t m) ≤ (pw s n))) ∧
    ((((m ≥ (0:ℤ)) ∧ (m = n)) ∧ (t = (-s))) → ((pw t m) = (if ((m % (2:ℤ)) = (0:ℤ)) then (pw s n) else (-(pw s n))))) ∧
    ((((m ≥ (0:ℤ)) ∧ (m = n)) ∧ (t = s)) → ((pw t m) = (pw s n))) ∧
    ((((m ≥ (0:ℤ)) ∧ ((0:ℝ) ≤ t) ∧ ((0:ℝ) ≤ s)) ∧ (t ≤ (s * s))) → (((n = ((2:ℤ) * m)) → ((pw t m) ≤ (pw s n))) ∧ ((n = (((2:ℤ) * m) + (2:ℤ))) → ((t * (pw t m)) ≤ (pw s n))) ∧ ((n = (((2:ℤ) * m) + (1:ℤ))) → ((s * (pw t m)) ≤ (pw s n))))) ∧
    (((((m ≥ (0:ℤ)) ∧ ((0:ℝ) ≤ t) ∧ ((0:ℝ) ≤ s)) ∧ (t ≤ s)) ∧ (n = (m + (1:ℤ)))) → ((s * (pw t m)) ≤ (pw s n))) ∧
    ((((m ≥ (0:ℤ)) ∧ ((0:ℝ) ≤ t) ∧ ((0:ℝ) ≤ s)) ∧ (t ≥ (s * s))) → (((n = ((2:ℤ) * m)) → ((pw t m) ≥ (pw s n))) ∧ ((n = (((2:ℤ) * m) + (2:ℤ))) → ((t * (pw t m)) ≥ (pw s n))) ∧ ((n = (((2:ℤ) * m) + (1:ℤ))) → ((s * (pw t m)) ≥ (pw s n))))) ∧
    (((((m ≥ (0:ℤ)) ∧ ((0:ℝ) ≤ t) ∧ ((0:ℝ) ≤ s)) ∧ (t ≥ s)) ∧ (n = (m + (1:ℤ)))) → ((s * (pw t m)) ≥ (pw s n))) := by
  by_cases hm : 0 ≤ m
  swap
  · refine ⟨?_, ?_, ?_, ?_, ?_, ?_, ?_⟩ <;> intro h <;> exfalso
    · exact hm h.1.1
    · exact hm h.1.1
    · exact hm h.1.1
    · exact hm h.1.1
    · exact hm h.1.1.1
    · exact hm h.1.1
    · exact hm h.1.1.1
  obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le hm
  have e2 : pw s (2 * (k:ℤ)) = (s * s) ^ k := by
    have : (2 * (k:ℤ)) = ((2 * k : ℕ) : ℤ) := by push_cast; rfl
    rw [this, pw_nat, pow_mul, pow_two]
  have e1 : pw s ((k:ℤ) + 1) = s * s ^ k := by
    have : ((k:ℤ) + 1) = ((k + 1 : ℕ) : ℤ) := by push_cast; rfl
    rw [this, pw_nat, pow_succ, mul_comm]
  have e3 : pw s (2 * (k:ℤ) + 1) = s * (s * s) ^ k := by
    have : (2 * (k:ℤ) + 1) = ((2 * k + 1 : ℕ) : ℤ) := by push_cast; rfl
    rw [this, pw_nat, pow_succ, pow_mul, pow_two, mul_comm]
  have e4 : pw s (2 * (k:ℤ) + 2) = (s * s) * (s * s) ^ k := by
    have : (2 * (k:ℤ) + 2) = ((2 * (k + 1) : ℕ) : ℤ) := by push_cast; ring
    rw [this, pw_nat, pow_mul, pow_two, pow_succ, mul_comm]
  rw [pw_nat]
  refine ⟨?_, ?_, ?_, ?_, ?_, ?_, ?_⟩
  · rintro ⟨⟨_, rfl⟩, h0, h⟩; rw [pw_nat]; exact pow_le_pow_left₀ h0 h k
  · rintro ⟨⟨_, rfl⟩, rfl⟩
    have := pw_neg (-s) k hm
    rw [neg_neg, pw_nat, pw_nat] at this
    rw [pw_nat]; exact this
  · rintro ⟨⟨_, rfl⟩, rfl⟩; rw [pw_nat]
  · rintro ⟨⟨_, ht, hs⟩, h⟩
    have a := pow_le_pow_left₀ ht h k
    refine ⟨?_, ?_, ?_⟩ <;> rintro rfl
    · rw [e2]; exact a
    · rw [e4]; exact mul_le_mul h a (pow_nonneg ht k) (mul_nonneg hs hs)
    · rw [e3]; exact mul_le_mul_of_nonneg_left a hs
  · rintro ⟨⟨⟨_, ht, hs⟩, h⟩, rfl⟩
    rw [e1]; exact mul_le_mul_of_nonneg_left (pow_le_pow_left₀ ht h k) hs
  · rintro ⟨⟨_, ht, hs⟩, h⟩
    have a := pow_le_pow_left₀ (mul_nonneg hs hs) h k
    refine ⟨?_, ?_, ?_⟩ <;> rintro rfl
    · rw [e2]; exact a
    · rw [e4]; exact mul_le_mul h a (pow_nonneg (mul_nonneg hs hs) k) ht
    · rw [e3]; exact mul_le_mul_of_nonneg_left a hs
  · rintro ⟨⟨⟨_, ht, hs⟩, h⟩, rfl⟩
    rw [e1]; exact mul_le_mul_of_nonneg_left (pow_le_pow_left₀ hs h k) hs

theorem rt_nonneg (v : ℝ) (n : ℤ) : rt v n ≥ 0 := Real.rpow_nonneg (abs_nonneg v) _

theorem rt_pw (v : ℝ) (n : ℤ) (h : v ≥ 0) (hn : n ≥ 1) : pw (rt v n) n = v := by
  obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ n)
  have hk : k ≠ 0 := by omega
  rw [pw_nat, rt, abs_of_nonneg h]
  have := Real.rpow_inv_natCast_pow h hk
  simpa using this

theorem rt_one (n : ℤ) : rt 1 n = 1 := by simp [rt]

theorem rt_mul (v w : ℝ) (n : ℤ)  : rt (v * w) n = rt v n * rt w n := by
  rw [rt, rt, rt, abs_mul, Real.mul_rpow (abs_nonneg v) (abs_nonneg w)]

theorem rt_lt (v w : ℝ) (n : ℤ) (hv : 0 ≤ v) (hw : 0 ≤ w) (hn : 1 ≤ n) : rt v n < rt w n ↔ v < w := by
  have hp : (0:ℝ) < ((n:ℝ))⁻¹ := by
    have : (0:ℝ) < n := by exact_mod_cast (by omega : 0 < n)
    positivity
  rw [rt, rt, abs_of_nonneg hv, abs_of_nonneg hw]
  exact Real.rpow_lt_rpow_iff hv hw hp

theorem rt_le (v w : ℝ) (n : ℤ) (hv : 0 ≤ v) (hw : 0 ≤ w) (hn : 1 ≤ n) : rt v n ≤ rt w n ↔ v ≤ w := by
  rw [← not_lt, ← not_lt, not_iff_not]; exact rt_lt w v n hw hv hn

theorem chord (k : ℕ) (a b : ℝ) (h : a < b) : ∃ x, a < x ∧ x < b ∧ b ^ (k+1) - a ^ (k+1) = ((k:ℝ) + 1) * x ^ k * (b - a) := by
  obtain ⟨x, ⟨h1, h2⟩, h3⟩ := exists_hasDerivAt_eq_slope (fun x : ℝ => x ^ (k+1)) (fun x => ((k+1 : ℕ):ℝ) * x ^ k) h
    (by fun_prop) (fun x _ => by simpa using hasDerivAt_pow (k+1) x)
  refine ⟨x, h1, h2, ?_⟩
  have : b - a ≠ 0 := by linarith
  field_simp at h3
  push_cast at h3
  linarith

theorem pw_mvt (b r : ℝ) (n : ℤ) (hr : 0 ≤ r) : ∃ x E : ℝ, (((b ≥ (0:ℝ)) ∧ (n ≥ (1:ℤ))) → ((((b ≤ x) ∧ (x ≤ r)) ∨ ((r ≤ x) ∧ (x ≤ b))) ∧ (E ≥ (0:ℝ)) ∧ (((pw b n) - (pw r n)) = (E * (b - r))))) ∧
    (E = (((n : ℤ) : ℝ) * (pw x (n - 1)))) := by
  by_cases h : b ≥ 0 ∧ n ≥ 1
  swap
  · exact ⟨0, _, fun h' => absurd h' h, rfl⟩
  obtain ⟨hb, hn⟩ := h
  obtain ⟨k, rfl⟩ : ∃ k : ℕ, n = ((k + 1 : ℕ) : ℤ) := ⟨(n - 1).toNat, by omega⟩
  have e : (((k + 1 : ℕ) : ℤ) - 1) = (k : ℤ) := by push_cast; ring
  rw [e]
  have key : ∃ x, ((b ≤ x ∧ x ≤ r) ∨ (r ≤ x ∧ x ≤ b)) ∧ b ^ (k+1) - r ^ (k+1) = ((k:ℝ) + 1) * x ^ k * (b - r) := by
    rcases lt_trichotomy b r with h | h | h
    · obtain ⟨x, h1, h2, h3⟩ := chord k b r h
      exact ⟨x, Or.inl ⟨h1.le, h2.le⟩, by linarith⟩
    · exact ⟨b, Or.inl ⟨le_rfl, h.le⟩, by rw [h]; ring⟩
    · obtain ⟨x, h1, h2, h3⟩ := chord k r b h
      exact ⟨x, Or.inr ⟨h1.le, h2.le⟩, h3⟩
  obtain ⟨x, hx, h3⟩ := key
  have hx0 : 0 ≤ x := by rcases hx with h | h <;> linarith [h.1]
  refine ⟨x, _, fun _ => ⟨hx, ?_, ?_⟩, rfl⟩
  · rw [pw_nat]; push_cast; positivity
  · rw [pw_nat, pw_nat, pw_nat, h3]; push_cast; ring
end powers

section functions
theorem tanh_mono {s t : ℝ} (h : s ≤ t) : Real.tanh s ≤ Real.tanh t := by
  rw [Real.tanh_eq_sinh_div_cosh, Real.tanh_eq_sinh_div_cosh, div_le_div_iff₀ (Real.cosh_pos s) (Real.cosh_pos t)]
  have := Real.sinh_nonneg_iff.mpr (sub_nonneg.mpr h)
  rw [Real.sinh_sub] at this
  linarith

theorem acosh_mono {s t : ℝ} (h1 : 1 ≤ s) (h : s ≤ t) : Real.arcosh s ≤ Real.arcosh t := by
  by_contra hc
  push Not at hc
  have a : Real.cosh (Real.arcosh t) < Real.cosh (Real.arcosh s) := by
    rw [Real.cosh_lt_cosh, abs_of_nonneg (Real.arcosh_nonneg (le_trans h1 h)), abs_of_nonneg (Real.arcosh_nonneg h1)]; exact hc
  rw [Real.cosh_arcosh h1, Real.cosh_arcosh (le_trans h1 h)] at a
  linarith

theorem artanh_mono {s t : ℝ} (h1 : -1 < s) (h2 : t < 1) (h : s ≤ t) : Real.artanh s ≤ Real.artanh t := by
  by_contra hc
  push Not at hc
  have a := tanh_mono hc.le
  rw [Real.tanh_artanh ⟨h1, by linarith⟩, Real.tanh_artanh ⟨by linarith, h2⟩] at a
  have : s = t := le_antisymm h a
  rw [this] at hc
  exact lt_irrefl _ hc
theorem artanh_odd (t : ℝ) : Real.artanh (-t) = -Real.artanh t := by
  have e : (1 + -t) / (1 - -t) = ((1 + t) / (1 - t))⁻¹ := by rw [inv_div]; congr 1 <;> ring
  rw [Real.artanh, Real.artanh, e, Real.sqrt_inv, Real.log_inv]
end functions
