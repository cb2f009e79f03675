-- Proofs of the statements that vc/lemmas.py generates; a block "-- @name" is the proof term of the theorem of that name.
-- @fmt_facts32
by
  refine ⟨?_, ?_, ?_⟩ <;> norm_num [F32, Fmt.MAX, Fmt.BIG]
-- @fmt_facts64
by
  have h : (2:ℝ) ^ (970:ℤ) > 0 := by positivity
  have e : (2:ℝ) ^ (971:ℤ) = 2 ^ (970:ℤ) * 2 := by rw [← zpow_add_one₀ (by norm_num)]; norm_num
  have g : (2:ℝ) ^ (100:ℤ) ≤ 2 ^ (970:ℤ) := zpow_le_zpow_right₀ (by norm_num) (by norm_num)
  have g2 : (1000000000000000000000000000000:ℝ) < 2 ^ (100:ℤ) := by norm_num
  have hB : F64.BIG = 2 ^ (970:ℤ) := by
    show (2:ℝ) ^ ((971:ℤ) - 1) = _
    congr 1
  have hM : F64.MAX = ((2:ℝ) ^ 53 - 1) * (2 ^ (970:ℤ) * 2) := by
    show ((2:ℝ) ^ 53 - 1) * 2 ^ (971:ℤ) = _
    rw [e]
  have c : (2:ℝ) ^ 53 - 1 > 8 := by norm_num
  have g3 := lt_of_lt_of_le g2 g
  rw [hB, hM]
  clear e g g2 hB hM
  generalize (2:ℝ) ^ (970:ℤ) = y at *
  generalize (2:ℝ) ^ 53 - 1 = z at *
  refine ⟨?_, h, ?_⟩ <;> nlinarith
-- @fmt_facts80
by
  have h : (2:ℝ) ^ (16319:ℤ) > 0 := by positivity
  have e : (2:ℝ) ^ (16320:ℤ) = 2 ^ (16319:ℤ) * 2 := by rw [← zpow_add_one₀ (by norm_num)]; norm_num
  have g : (2:ℝ) ^ (100:ℤ) ≤ 2 ^ (16319:ℤ) := zpow_le_zpow_right₀ (by norm_num) (by norm_num)
  have g2 : (1000000000000000000000000000000:ℝ) < 2 ^ (100:ℤ) := by norm_num
  have hB : F80.BIG = 2 ^ (16319:ℤ) := by
    show (2:ℝ) ^ ((16320:ℤ) - 1) = _
    congr 1
  have hM : F80.MAX = ((2:ℝ) ^ 64 - 1) * (2 ^ (16319:ℤ) * 2) := by
    show ((2:ℝ) ^ 64 - 1) * 2 ^ (16320:ℤ) = _
    rw [e]
  have c : (2:ℝ) ^ 64 - 1 > 8 := by norm_num
  have g3 := lt_of_lt_of_le g2 g
  rw [hB, hM]
  clear e g g2 hB hM
  generalize (2:ℝ) ^ (16319:ℤ) = y at *
  generalize (2:ℝ) ^ 64 - 1 = z at *
  refine ⟨?_, h, ?_⟩ <;> nlinarith
-- @fmt_order
by
  constructor
  · have hM : F64.MAX = ((2:ℝ) ^ 53 - 1) * 2 ^ (971:ℤ) := rfl
    have hN : F32.MAX = ((2:ℝ) ^ 24 - 1) * 2 ^ (104:ℤ) := rfl
    rw [hM, hN]
    have g : (2:ℝ) ^ (104:ℤ) ≤ 2 ^ (971:ℤ) := zpow_le_zpow_right₀ (by norm_num) (by norm_num)
    have h : (0:ℝ) < (2:ℝ) ^ (104:ℤ) := by positivity
    have c : (2:ℝ) ^ 24 - 1 < 2 ^ 53 - 1 := by norm_num
    have c0 : (0:ℝ) < 2 ^ 24 - 1 := by norm_num
    generalize (2:ℝ) ^ (971:ℤ) = y at *
    generalize (2:ℝ) ^ (104:ℤ) = y1 at *
    generalize (2:ℝ) ^ 53 - 1 = z at *
    generalize (2:ℝ) ^ 24 - 1 = z1 at *
    nlinarith
  · have hM : F80.MAX = ((2:ℝ) ^ 64 - 1) * 2 ^ (16320:ℤ) := rfl
    have hN : F64.MAX = ((2:ℝ) ^ 53 - 1) * 2 ^ (971:ℤ) := rfl
    rw [hM, hN]
    have g : (2:ℝ) ^ (971:ℤ) ≤ 2 ^ (16320:ℤ) := zpow_le_zpow_right₀ (by norm_num) (by norm_num)
    have h : (0:ℝ) < (2:ℝ) ^ (971:ℤ) := by positivity
    have c : (2:ℝ) ^ 53 - 1 < 2 ^ 64 - 1 := by norm_num
    have c0 : (0:ℝ) < 2 ^ 53 - 1 := by norm_num
    generalize (2:ℝ) ^ (16320:ℤ) = y at *
    generalize (2:ℝ) ^ (971:ℤ) = y1 at *
    generalize (2:ℝ) ^ 64 - 1 = z at *
    generalize (2:ℝ) ^ 53 - 1 = z1 at *
    nlinarith
-- @rep_range
⟨le_max F hr, neg_max_le F hr⟩
-- @rd_def
⟨le_max F (rd_spec F t).1, neg_max_le F (rd_spec F t).1, (rd_spec F t).2.2.1⟩
-- @rd_rep
⟨(rd_spec F t).2.1 r hr, (rd_spec F t).2.1 (-r) (mem_neg0 hr)⟩
-- @rd_double
by
  have e : (-2:ℝ) * r = 2 * -r := by ring
  rw [e]
  exact ⟨fun h => (rd_spec F t).2.1 _ (mem_double F hr (abs_le.mpr h.2)) h.1,
    fun h => (rd_spec F t).2.1 _ (mem_double F (mem_neg0 hr) (abs_le.mpr h.2)) h.1⟩
-- @rd_const
⟨(rd_spec F t).2.1 0 (mem_zero F), (rd_spec F t).2.1 1 (mem_one F), (rd_spec F t).2.1 (-1) (mem_neg0 (mem_one F))⟩
-- @rd_max
(rd_spec F t).2.1 _ (mem_max F)
-- @floor_def
⟨Int.floor_le t, Int.lt_floor_add_one t⟩
-- @floor_rep
by
  refine ⟨fun h => ?_, fun h => ?_, fun h => ?_, fun h => ?_, fun h => ?_⟩
  · exact_mod_cast Int.le_floor.mpr h
  · have : -k ≤ ⌊t⌋ := Int.le_floor.mpr (by push_cast; exact h)
    exact_mod_cast this
  · have : (0:ℤ) ≤ ⌊t⌋ := Int.le_floor.mpr (by push_cast; exact h)
    exact_mod_cast this
  · have : (1:ℤ) ≤ ⌊t⌋ := Int.le_floor.mpr (by push_cast; exact h)
    exact_mod_cast this
  · have : (-1:ℤ) ≤ ⌊t⌋ := Int.le_floor.mpr (by push_cast; exact h)
    exact_mod_cast this
-- @int_apart
by
  refine ⟨?_, ?_, ?_, ?_⟩
  · have : k ≤ l ∨ k ≥ l + 1 := by omega
    exact_mod_cast this
  · have : k ≥ l ∨ k ≤ l - 1 := by omega
    exact_mod_cast this
  · have : k ≤ -l ∨ k ≥ -l + 1 := by omega
    exact_mod_cast this
  · have : k ≥ -l ∨ k ≤ -l - 1 := by omega
    exact_mod_cast this
-- @rn_def
⟨le_max F (rn_spec F t).1, neg_max_le F (rn_spec F t).1⟩
-- @rn_over
⟨fun h => h, fun h => by linarith⟩
-- @rn_rep
⟨rn_le_side F hr, rn_ge_side F hr, rn_le_side F (mem_neg0 hr), rn_ge_side F (mem_neg0 hr)⟩
-- @rn_sign
⟨fun h => (rn_le_side F (mem_zero F) h).1, fun h => (rn_ge_side F (mem_zero F) h).1⟩
-- @rn_double
by
  have e : (-2:ℝ) * r = 2 * -r := by ring
  rw [e]
  refine ⟨fun h => (rn_le_side F (mem_double F hr (abs_le.mpr h.2)) h.1).1, fun h => (rn_ge_side F (mem_double F hr (abs_le.mpr h.2)) h.1).1,
    fun h => (rn_le_side F (mem_double F (mem_neg0 hr) (abs_le.mpr h.2)) h.1).1,
    fun h => (rn_ge_side F (mem_double F (mem_neg0 hr) (abs_le.mpr h.2)) h.1).1⟩
-- @rn_half
by
  intro h
  have hb : F.BIG ≤ |r| := by
    rcases h with h | h
    · exact le_trans h (le_abs_self r)
    · exact le_trans (by linarith) (neg_abs_le r |> fun h' => by linarith [neg_le_abs r] : -r ≤ |r|)
  have := mem_half F hr hb
  have e : t = r / 2 := by linarith
  rw [← e] at this
  exact rn_of_mem F this
-- @rint_def
by
  have := abs_le.mp (abs_sub_round x)
  constructor <;> linarith [this.1, this.2]
-- @int_exact_down
fun h => rd_of_mem F (int_exact0 F k h)
-- @int_exact_near
fun h => rn_of_mem F (int_exact0 F k h)
-- @mem_neg
mem_neg0 h
-- @mem_widen
by
  constructor
  · rintro ⟨m, e, hm, h1, h2, rfl⟩
    exact ⟨m, e, lt_of_lt_of_le hm (by norm_num [F32, F64]), le_trans (by norm_num [F32, F64]) h1, le_trans h2 (by norm_num [F32, F64]), rfl⟩
  · rintro ⟨m, e, hm, h1, h2, rfl⟩
    exact ⟨m, e, lt_of_lt_of_le hm (by norm_num [F80, F64]), le_trans (by norm_num [F80, F64]) h1, le_trans h2 (by norm_num [F80, F64]), rfl⟩
-- @mem_rd
(rd_spec F t).1
-- @mem_rn
(rn_spec F t).1
-- @mem_int
mem_int0 F k h
-- @mem_integer_part
mem_integer_part0 F x k h hk
-- @int_rd
int_rd0 F k
-- @int_rn
by
  have hm := (rn_spec F (k:ℝ)).1
  by_cases h : |(k:ℝ)| ≤ 2 ^ F.p
  · exact ⟨k, rn_of_mem F (int_exact0 F k (abs_le.mp h))⟩
  · push Not at h
    obtain ⟨m, e, hb, h1, h2, hx⟩ := id hm
    by_cases he : 0 ≤ e
    · obtain ⟨a, rfl⟩ := Int.eq_ofNat_of_zero_le he
      exact ⟨m * 2 ^ a, by rw [hx]; push_cast; simp⟩
    · exfalso
      have c : (0:ℝ) < 2 ^ e := by positivity
      have c2 : (2:ℝ) ^ e ≤ 1 := by
        calc (2:ℝ) ^ e ≤ 2 ^ (0:ℤ) := zpow_le_zpow_right₀ (by norm_num) (by omega)
          _ = 1 := by simp
      have hmr : |(m:ℝ)| < 2 ^ F.p := by exact_mod_cast hb
      have hp : |rn F (k:ℝ)| < 2 ^ F.p := by
        rw [hx, abs_mul, abs_of_pos c]
        nlinarith [abs_nonneg (m:ℝ)]
      have hp2 := abs_lt.mp hp
      have two : ((2 ^ F.p : ℤ) : ℝ) ∈ F.S := mem_int0 F (2 ^ F.p) (by rw [abs_of_nonneg (by positivity)])
      push_cast at two
      rcases le_or_gt 0 (k:ℝ) with hk | hk
      · rw [abs_of_nonneg hk] at h
        have := (rn_le_side F two h.le).1
        linarith
      · rw [abs_of_neg hk] at h
        have := (rn_ge_side F (mem_neg0 two) (by linarith : (k:ℝ) ≤ -(2 ^ F.p))).1
        linarith
-- @quo_def
by
  refine ⟨?_, ?_, ?_, ?_, ?_⟩
  · by_cases h : (0:ℝ) = b
    · exact Or.inl h
    · right; field_simp [Ne.symm h]
  all_goals
    rw [← imp_iff_not_or]
    rintro ⟨h1, h2⟩
  · exact div_nonneg h1 h2.le
  · exact div_nonpos_of_nonpos_of_nonneg h1 h2.le
  · exact div_nonpos_of_nonneg_of_nonpos h1 (le_of_lt h2)
  · exact div_nonneg_of_nonpos h1 (le_of_lt h2)
-- @sqrt_def
⟨Real.sqrt_nonneg a, fun h => Real.mul_self_sqrt h⟩
-- @pow_def
by
  refine ⟨?_, ?_, ?_, ?_, ?_, ?_, ?_, ?_, ?_, ?_⟩
  · rintro rfl; simp [pw]
  · rintro rfl; simp [pw]
  · rintro ⟨h, _⟩; exact pow_nonneg h _
  · rintro ⟨h, _⟩; exact pow_pos h _
  · rintro ⟨rfl, h⟩
    have : n.toNat ≠ 0 := by omega
    simp [pw, this]
  · rintro ⟨rfl, _⟩; simp [pw]
  · rintro ⟨h, h0⟩
    obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le h0
    have : Even k := by rw [Nat.even_iff]; omega
    simpa [pw] using this.pow_nonneg t
  · rintro ⟨h, _⟩; exact pow_ne_zero _ h
  · rintro ⟨h, h0⟩
    have : n.toNat ≠ 0 := by omega
    exact le_self_pow₀ h this
  · rintro ⟨h, h1, h0⟩
    have : n.toNat ≠ 0 := by omega
    exact pow_le_of_le_one h h1 this
-- @pow_pair_general1
pw_pair1 t s m n
-- @pow_pair_same_exponent1
by
  have := pw_pair1 t s m m
  exact ⟨this.1, this.2.1⟩
-- @pow_pair_same_base1
by
  have := pw_base t m n
  refine ⟨?_, this.1, this.2⟩
  rintro rfl; rfl
-- @pow_pair_general2
by
  have := pw_pair1 t s m n
  exact ⟨this.1, this.2.2.2⟩
-- @pow_pair_same_exponent2
(pw_pair1 t s m m).1
-- @pow_pair_same_base2
pw_base t m n
-- @pow_parity
by
  have := pw_neg a n
  constructor
  · rintro ⟨h, h2⟩; have := this h; rw [if_pos h2] at this; exact this
  · rintro ⟨h, h2⟩; have := this h; rw [if_neg (by omega)] at this; exact this
-- @pow_code
⟨by simp [pw], by simp [pw], fun n => by simp [pw]⟩
-- @root_def
by
  refine ⟨rt_nonneg v n, ?_⟩
  rintro ⟨h, hn⟩; exact rt_pw v n h hn
-- @root_pair
by
  refine ⟨?_, ?_, ?_, ?_⟩ <;> rintro ⟨hv, hw⟩
  · have := rt_lt (v * w) 1 n (mul_nonneg hv hw) zero_le_one hn
    rwa [rt_mul, rt_one] at this
  · have := rt_lt 1 (v * w) n zero_le_one (mul_nonneg hv hw) hn
    rwa [rt_mul, rt_one] at this
  · exact rt_le v w n hv hw hn
  · exact rt_le w v n hw hv hn
-- @mean_value
pw_mvt b r n hr
-- @pi_def
⟨by have := Real.pi_gt_d20; norm_num at this ⊢; linarith, by have := Real.pi_lt_d20; norm_num at this ⊢; linarith⟩
-- @pi_mul
by
  have h1 : ((157079632679489661923:ℝ)/50000000000000000000) < Real.pi := by have := Real.pi_gt_d20; norm_num at this ⊢; linarith
  have h2 : Real.pi < ((314159265358979323847:ℝ)/100000000000000000000) := by have := Real.pi_lt_d20; norm_num at this ⊢; linarith
  constructor <;> intro h <;> constructor <;> nlinarith
-- @def_exp
⟨Real.exp_pos t, fun h => Real.one_le_exp h, fun h => Real.exp_le_one_iff.mpr h, fun h => by simp [h]⟩
-- @pair_exp
fun h => Real.exp_le_exp.mpr h
-- @def_log
⟨fun h => Real.log_nonneg h, fun h => Real.log_nonpos h.1.le h.2, fun h => by simp [h]⟩
-- @pair_log
fun h => Real.log_le_log h.1.1 h.2
-- @def_cos
⟨Real.neg_one_le_cos t, Real.cos_le_one t, Real.pi_gt_three, fun h => by simp [h]⟩
-- @pair_cos
by
  have A : ∀ s t : ℝ, s ≥ 0 → s ≤ t → t ≤ Real.pi → Real.cos t ≤ Real.cos s := fun s t h1 h2 h3 => Real.cos_le_cos_of_nonneg_of_le_pi h1 h3 h2
  have B : ∀ s t : ℝ, s ≥ 0 → s ≤ 2 * Real.pi - t → Real.pi ≤ t → Real.cos t ≤ Real.cos s := by
    intro s t h1 h2 h3
    have := A s (2 * Real.pi - t) h1 h2 (by linarith)
    rwa [Real.cos_two_pi_sub] at this
  refine ⟨fun h => A s t h.1 h.2.1 h.2.2, fun h => B s t h.1 h.2.1 h.2.2, fun h => ?_, fun h => ?_, fun h => ?_, fun h => ?_, fun h => ?_, fun h => ?_, ?_, ?_⟩
  · have := A s (-t) h.1 h.2.1 h.2.2; rwa [Real.cos_neg] at this
  · have := B s (-t) h.1 h.2.1 h.2.2; rwa [Real.cos_neg] at this
  · have := A (-s) t h.1 h.2.1 h.2.2; rwa [Real.cos_neg] at this
  · have := B (-s) t h.1 h.2.1 h.2.2; rwa [Real.cos_neg] at this
  · have := A (-s) (-t) h.1 h.2.1 h.2.2; rwa [Real.cos_neg, Real.cos_neg] at this
  · have := B (-s) (-t) h.1 h.2.1 h.2.2; rwa [Real.cos_neg, Real.cos_neg] at this
  · rintro rfl; exact Real.cos_neg t
  · rintro rfl; rfl
-- @even_cos
Real.cos_neg t
-- @def_tan
by
  refine ⟨Real.pi_gt_three, fun h => ?_, fun h => ?_, fun h => by simp [h]⟩
  · exact Real.tan_nonneg_of_nonneg_of_le_pi_div_two h.1 (by linarith)
  · have := Real.tan_nonneg_of_nonneg_of_le_pi_div_two (x := -t) (by linarith) (by linarith)
    rw [Real.tan_neg] at this; linarith
-- @pair_tan
by
  have A : ∀ s t : ℝ, -Real.pi < 2 * s → s ≤ t → 2 * t < Real.pi → Real.tan s ≤ Real.tan t := by
    intro s t h1 h2 h3
    rcases eq_or_lt_of_le h2 with h | h
    · rw [h]
    · exact (Real.tan_lt_tan_of_lt_of_lt_pi_div_two (by linarith) (by linarith) h).le
  refine ⟨fun h => A s t h.1 h.2.1 h.2.2, fun h => ?_, fun h => ?_, ?_, ?_⟩
  · have := A s (-t) h.1 h.2.1 (by linarith); rwa [Real.tan_neg] at this
  · have := A (-t) s (by linarith) h.2.1 h.1; rwa [Real.tan_neg] at this
  · rintro rfl; exact Real.tan_neg t
  · rintro rfl; rfl
-- @odd_tan
Real.tan_neg t
-- @def_asin
by
  refine ⟨?_, ?_, ?_, ?_⟩
  · right; constructor
    · linarith [Real.neg_pi_div_two_le_arcsin t]
    · linarith [Real.arcsin_le_pi_div_two t]
  · rw [← imp_iff_not_or]; rintro ⟨_, h⟩; exact Real.arcsin_nonneg.mpr h
  · rw [← imp_iff_not_or]; rintro ⟨_, h⟩; exact Real.arcsin_nonpos.mpr h
  · rintro rfl; simp
-- @pair_asin
by
  refine ⟨fun h => Real.monotone_arcsin h.2, fun h => by rw [h.2, Real.arcsin_neg], fun h => ?_, fun h => ?_⟩
  · have := Real.monotone_arcsin h.2; rwa [Real.arcsin_neg] at this
  · have := Real.monotone_arcsin h.2; rwa [Real.arcsin_neg] at this
-- @odd_asin
Real.arcsin_neg t
-- @def_acos
⟨Or.inr ⟨Real.arccos_nonneg t, Real.arccos_le_pi t⟩, fun h => by simp [h]⟩
-- @pair_acos
fun h => Real.antitone_arccos h.2
-- @def_atan
by
  refine ⟨by linarith [Real.neg_pi_div_two_lt_arctan t], by linarith [Real.arctan_lt_pi_div_two t], ?_, ?_, fun h => by simp [h]⟩
  · rw [← imp_iff_not_or]; intro h
    have := Real.arctan_strictMono.monotone h; rwa [Real.arctan_zero] at this
  · rw [← imp_iff_not_or]; intro h
    have := Real.arctan_strictMono.monotone h; rwa [Real.arctan_zero] at this
-- @pair_atan
by
  refine ⟨fun h => Real.arctan_strictMono.monotone h, fun h => by rw [h, Real.arctan_neg], fun h => ?_, fun h => ?_⟩
  · have := Real.arctan_strictMono.monotone h; rwa [Real.arctan_neg] at this
  · have := Real.arctan_strictMono.monotone h; rwa [Real.arctan_neg] at this
-- @odd_atan
Real.arctan_neg t
-- @def_sinh
by
  refine ⟨?_, ?_, fun h => by simp [h]⟩
  · rw [← imp_iff_not_or]; intro h; exact Real.sinh_nonneg_iff.mpr h
  · rw [← imp_iff_not_or]; intro h; exact Real.sinh_nonpos_iff.mpr h
-- @pair_sinh
by
  refine ⟨fun h => Real.sinh_le_sinh.mpr h, fun h => by rw [h, Real.sinh_neg], fun h => ?_, fun h => ?_⟩
  · have := Real.sinh_le_sinh.mpr h; rwa [Real.sinh_neg] at this
  · have := Real.sinh_le_sinh.mpr h; rwa [Real.sinh_neg] at this
-- @odd_sinh
Real.sinh_neg t
-- @def_cosh
⟨Real.one_le_cosh t, fun h => by simp [h]⟩
-- @pair_cosh
by
  constructor
  · rintro ⟨h1, h2⟩; rw [Real.cosh_le_cosh]; exact le_trans (abs_le.mpr ⟨by linarith, h1⟩) (le_abs_self t)
  · rintro ⟨h1, h2⟩; rw [Real.cosh_le_cosh]; exact le_trans (abs_le.mpr ⟨by linarith, by linarith⟩) (neg_le_abs t)
-- @even_cosh
Real.cosh_neg t
-- @def_tanh
by
  refine ⟨Real.neg_one_lt_tanh t, Real.tanh_lt_one t, ?_, ?_, fun h => by simp [h]⟩
  · rw [← imp_iff_not_or]; intro h; rw [Real.tanh_eq_sinh_div_cosh]
    exact div_nonneg (Real.sinh_nonneg_iff.mpr h) (Real.cosh_pos t).le
  · rw [← imp_iff_not_or]; intro h; rw [Real.tanh_eq_sinh_div_cosh]
    exact div_nonpos_of_nonpos_of_nonneg (Real.sinh_nonpos_iff.mpr h) (Real.cosh_pos t).le
-- @pair_tanh
by
  refine ⟨fun h => tanh_mono h, fun h => by rw [h, Real.tanh_neg], fun h => ?_, fun h => ?_⟩
  · have := tanh_mono h; rwa [Real.tanh_neg] at this
  · have := tanh_mono h; rwa [Real.tanh_neg] at this
-- @odd_tanh
Real.tanh_neg t
-- @def_asinh
by
  refine ⟨?_, ?_, fun h => by simp [h]⟩
  · rw [← imp_iff_not_or]; intro h; exact Real.arsinh_nonneg_iff.mpr h
  · rw [← imp_iff_not_or]; intro h; exact Real.arsinh_nonpos_iff.mpr h
-- @pair_asinh
by
  refine ⟨fun h => Real.arsinh_le_arsinh.mpr h, fun h => by rw [h, Real.arsinh_neg], fun h => ?_, fun h => ?_⟩
  · have := Real.arsinh_le_arsinh.mpr h; rwa [Real.arsinh_neg] at this
  · have := Real.arsinh_le_arsinh.mpr h; rwa [Real.arsinh_neg] at this
-- @odd_asinh
Real.arsinh_neg t
-- @def_acosh
by
  refine ⟨?_, fun h => by simp [h]⟩
  rw [← imp_iff_not_or]; intro h; exact Real.arcosh_nonneg h
-- @pair_acosh
fun h => acosh_mono h.1.1 h.2
-- @def_atanh
by
  refine ⟨?_, ?_, fun h => by simp [h]⟩
  · rw [← imp_iff_not_or]; rintro ⟨⟨h1, h2⟩, h⟩
    have := artanh_mono (by norm_num) h2 h; rwa [Real.artanh_zero] at this
  · rw [← imp_iff_not_or]; rintro ⟨⟨h1, h2⟩, h⟩
    have := artanh_mono h1 (by norm_num) h; rwa [Real.artanh_zero] at this
-- @pair_atanh
by
  refine ⟨?_, ?_, ?_, ?_⟩ <;> rintro ⟨⟨⟨h1, h2⟩, ⟨h3, h4⟩⟩, h⟩
  · exact artanh_mono h1 h4 h
  · rw [h, artanh_odd]
  · have := artanh_mono h1 (by linarith : -t < 1) h; rwa [artanh_odd] at this
  · have := artanh_mono (by linarith : -1 < -t) h2 h; rwa [artanh_odd] at this
-- @odd_atanh
artanh_odd t
-- @sin_cos
by rw [Real.cos_sub_pi_div_two]
-- @period_cos
by
  have e : Real.cos (t - 2 * (k * Real.pi)) = Real.cos t := by
    have := Real.cos_sub_int_mul_two_pi t k
    rw [← this]; congr 1; ring
  refine ⟨e.symm, ?_⟩
  rw [Real.cos_sub_pi, e, neg_neg]
-- @period_tan
by
  have e : Real.tan (t - k * Real.pi) = Real.tan t := Real.tan_sub_int_mul_pi t k
  refine ⟨e.symm, ?_⟩
  rw [← sub_eq_add_neg, Real.tan_sub_pi, e]
