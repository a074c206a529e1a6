import Mathlib.LinearAlgebra.Lagrange
open scoped Classical
-- INCLUDE interp
-- EXPORTS

theorem create_eq (np : ℤ) (cs as : ℤ → K) (i : ℤ) :
    create np cs as i = ∑ j ∈ range np.toNat, cs j * as i ^ j := by
  unfold create
  refine sum_congr rfl fun j _ => ?_
  simp [mul_comm]

theorem passive_lagr (t : ℕ) (s as : ℤ → K) (x : K) :
    passive t s as x = lagr (t + 1) (fun j => as j) (fun j => s j) x := by
  have ht : ((1 : ℤ) + (t : ℤ)).toNat = t + 1 := by omega
  unfold passive passive_sumK0 lagr
  simp only [ht]
  LAGR

theorem passive0_lagr (t : ℕ) (s : ℤ → K) : passive0 t s = lagr (t + 1) alpha (fun j => s j) 0 := by
  have ht : ((1 : ℤ) + (t : ℤ)).toNat = t + 1 := by omega
  unfold passive0 passive0_sumK0 lagr alpha
  simp only [ht]
  LAGR

theorem detect_lagr (t : ℕ) (s as : ℤ → K) (x : K) :
    detect t s as x = lagr (t + 1) (fun j => as j) (fun j => s j) x := by
  have ht : ((1 : ℤ) + (t : ℤ)).toNat = t + 1 := by omega
  unfold detect detect_sumK0 lagr
  simp only [ht]
  LAGR

theorem detect0_lagr (t : ℕ) (s : ℤ → K) : detect0 t s = lagr (t + 1) alpha (fun j => s j) 0 := by
  have ht : ((1 : ℤ) + (t : ℤ)).toNat = t + 1 := by omega
  unfold detect0 detect0_sumK0 lagr alpha
  simp only [ht]
  LAGR

/-- coefficients as a polynomial -/
noncomputable def poly (np : ℕ) (cs : ℕ → K) : K[X] := ∑ j ∈ range np, C (cs j) * X ^ j

theorem poly_eval (np : ℕ) (cs : ℕ → K) (x : K) : (poly np cs).eval x = ∑ j ∈ range np, cs j * x ^ j := by
  simp [poly, eval_finsetSum]

theorem poly_degree (np : ℕ) (cs : ℕ → K) : (poly np cs).degree < np := by
  unfold poly
  refine lt_of_le_of_lt (degree_sum_le _ _) ?_
  rw [Finset.sup_lt_iff (by exact WithBot.bot_lt_coe np)]
  intro j hj
  have : j < np := by simpa using hj
  exact lt_of_le_of_lt (degree_C_mul_X_pow_le _ _) (by exact_mod_cast this)

/-- any t + 1 shares of a polynomial with at most t + 1 coefficients, at distinct points, give its value at every position -/
theorem passive_correct (np t : ℕ) (hnp : np ≤ t + 1) (cs as : ℤ → K) (x : K)
    (hX : Set.InjOn (fun j : ℕ => as j) (range (t + 1))) :
    passive t (fun j => create np cs as j) as x = ∑ j ∈ range np, cs j * x ^ j := by
  rw [passive_lagr, lagr_of_poly (t + 1) _ _ (poly np fun j => cs j) hX
    (lt_of_lt_of_le (poly_degree _ _) (by exact_mod_cast hnp)), poly_eval]
  intro j _
  simp only [create_eq, poly_eval, Int.toNat_natCast]

theorem sum_at_zero (np : ℕ) (h : 1 ≤ np) (cs : ℕ → K) : ∑ j ∈ range np, cs j * (0 : K) ^ j = cs 0 := by
  rw [sum_eq_single_of_mem 0 (by simp; omega)]
  · simp
  · intro b _ hb
    simp [hb]

/-- with the canonical points: the constant coefficient, which is the secret -/
theorem passive0_correct {p : ℕ} [CharP K p] (np t : ℕ) (h1 : 1 ≤ np) (hnp : np ≤ t + 1) (hp : t + 1 ≤ p) (cs as : ℤ → K)
    (has : ∀ j : ℕ, as j = alpha j) :
    passive0 t (fun j => create np cs as j) = cs 0 := by
  rw [passive0_lagr, lagr_of_poly (t + 1) _ _ (poly np fun j => cs j) (alphas_inj (t + 1) hp)
    (lt_of_lt_of_le (poly_degree _ _) (by exact_mod_cast hnp)), poly_eval, sum_at_zero np h1]
  · simp
  · intro j _
    simp only [create_eq, poly_eval, Int.toNat_natCast, has]

/-- the coefficients before stripping: the secret, then the drawn values -/
def coeffs (s : K) (rnd : ℤ → K) (c : ℤ) (j : ℕ) : K := if j = 0 then s else rnd (c + j - 1)

theorem stripped_all (t : ℕ) (s : K) (rnd : ℤ → K) (c : ℤ) (h : polyLen_all0 t s rnd c) (j : ℕ) (hj : j ≤ t) :
    coeffs s rnd c j = 0 := by
  have := h (t - j) (by omega)
  unfold coeffs
  TERM

theorem stripped_below (t : ℕ) (s : K) (rnd : ℤ → K) (c : ℤ) (j : ℕ) (hj : j ≤ t) (hb : t - j < polyLen_first0 t s rnd c) :
    coeffs s rnd c j = 0 := by
  have := not_not.mp (Nat.notMem_of_lt_sInf hb)
  unfold coeffs
  TERM

theorem stripped_first (t : ℕ) (s : K) (rnd : ℤ → K) (c : ℤ) (h : ¬ polyLen_all0 t s rnd c) : polyLen_first0 t s rnd c ≤ t := by
  unfold polyLen_all0 at h
  push Not at h
  obtain ⟨b, hb, hz⟩ := h
  exact le_trans (Nat.sInf_le hz) (by omega)

theorem polyCoef_eq (t : ℕ) (s : K) (rnd : ℤ → K) (c : ℤ) (j : ℕ) (hj : j ≤ t) : polyCoef t s rnd c j = coeffs s rnd c j := by
  by_cases h : polyLen_all0 t s rnd c
  · have hc : ∀ i, polyCoef_all0 t s rnd c i := fun _ => h
    rw [stripped_all t s rnd c h j hj]
    unfold polyCoef
    simp only [hc, if_true]
    ring
  · have hc : ∀ i, ¬ polyCoef_all0 t s rnd c i := fun _ => h
    unfold polyCoef coeffs
    simp only [hc, if_false]
    by_cases hz : j = 0
    · subst hz
      simp
    · have h1 : (1 : ℤ) ≤ (j : ℤ) := by omega
      have h2 : (0 : ℤ) ≤ -1 + (j : ℤ) := by omega
      have h3 : ¬ ((j : ℤ) ≤ 0) := by omega
      have h4 : (-1 : ℤ) + (j : ℤ) + c = c + (j : ℤ) - 1 := by omega
      have h5 : ¬ ((j : ℤ) = 0) := by omega
      simp only [hz, h1, h2, h3, h4, h5, if_true, if_false]
      ring

/-- the sharing polynomial: stripping leading zeros leaves every share what the secret and the drawn values make it -/
theorem shares_of_secret (t : ℕ) (s : K) (rnd as : ℤ → K) (c : ℤ) (i : ℤ) :
    create (polyLen t s rnd c) (fun j => polyCoef t s rnd c j) as i =
      ∑ j ∈ range (t + 1), coeffs s rnd c j * as i ^ j := by
  have hL : (polyLen t s rnd c).toNat ≤ t + 1 ∧ ∀ j ≤ t, (polyLen t s rnd c).toNat ≤ j → coeffs s rnd c j = 0 := by
    by_cases h : polyLen_all0 t s rnd c
    · have e : (polyLen t s rnd c).toNat = 1 := by
        unfold polyLen
        simp [h]
      exact ⟨by omega, fun j hj _ => stripped_all t s rnd c h j hj⟩
    · have hf := stripped_first t s rnd c h
      have e : (polyLen t s rnd c).toNat = t + 1 - polyLen_first0 t s rnd c := by
        unfold polyLen
        simp [h]
        omega
      exact ⟨by omega, fun j hj hl => stripped_below t s rnd c j hj (by omega)⟩
  rw [create_eq, ← sum_subset (s₁ := range (polyLen t s rnd c).toNat) (s₂ := range (t + 1)) (f := fun j => coeffs s rnd c j * as i ^ j)]
  · refine sum_congr rfl fun j hj => ?_
    have : j < (polyLen t s rnd c).toNat := by simpa using hj
    rw [polyCoef_eq t s rnd c j (by omega)]
  · intro j hj
    simp only [mem_range] at hj ⊢
    omega
  · intro j hj hn
    simp only [mem_range] at hj hn
    rw [hL.2 j (by omega) (by omega), zero_mul]

/-- sharing, then reconstructing from any t + 1 shares at the canonical points: the secret -/
theorem secret_comes_back {p : ℕ} [CharP K p] (t : ℕ) (hp : t + 1 ≤ p) (s : K) (rnd as : ℤ → K) (c : ℤ)
    (has : ∀ j : ℕ, as j = alpha j) :
    passive0 t (fun j => create (polyLen t s rnd c) (fun k => polyCoef t s rnd c k) as j) = s := by
  rw [passive0_lagr, lagr_of_poly (t + 1) _ _ (poly (t + 1) fun j => coeffs s rnd c j) (alphas_inj (t + 1) hp)
    (poly_degree _ _), poly_eval, sum_at_zero (t + 1) (by omega)]
  · simp [coeffs]
  · intro j _
    simp only [shares_of_secret, poly_eval, has]

theorem detect_sum (ls la : ℤ) (t : ℕ) (s as : ℤ → K) (b : ℕ) :
    detect_throws_sumK0 ls la t s as b = lagr (t + 1) (fun j => as j) (fun j => s j) (as ((t + 1 + b : ℕ) : ℤ)) := by
  have ht : ((1 : ℤ) + (t : ℤ)).toNat = t + 1 := by omega
  have hb : (((t + 1 + b : ℕ) : ℤ)) = (1 : ℤ) + (t : ℤ) + (b : ℤ) := by omega
  unfold detect_throws_sumK0 lagr
  simp only [ht, hb]
  LAGR

theorem two_inds (p q : Prop) : (((1 : ℤ) + (-1 : ℤ) * (if p then (1 : ℤ) else 0) * (if q then (1 : ℤ) else 0)) = 1) = ¬ (p ∧ q) := by
  by_cases h : p <;> by_cases g : q <;> simp [h, g]

/-- detection: accepted exactly when the first t + 1 points are distinct and the first 2t + 1 shares lie on one polynomial of degree at most t -/
theorem detect_iff (ls la : ℤ) (t : ℕ) (hs : 2 * t + 1 ≤ ls) (ha : 2 * t + 1 ≤ la) (s as : ℤ → K) :
    ¬ detect_throws ls la t s as ↔ Set.InjOn (fun j : ℕ => as j) (range (t + 1)) ∧
      ∃ f : K[X], f.degree < (t + 1 : ℕ) ∧ ∀ j < 2 * t + 1, f.eval (as (j : ℕ)) = s (j : ℕ) := by
  have ht : ((1 : ℤ) + (t : ℤ)).toNat = t + 1 := by omega
  have hd : detect_throws_all0 ls la t s as ↔ Set.InjOn (fun j : ℕ => as j) (range (t + 1)) := by
    unfold detect_throws_all0
    rw [ht]
    exact ind_distinct (t + 1) (fun j : ℕ => as j)
  have hc : detect_throws_all1 ls la t s as ↔ ∀ b < t, lagr (t + 1) (fun j => as j) (fun j => s j) (as ((t + 1 + b : ℕ) : ℤ)) = s ((t + 1 + b : ℕ) : ℤ) := by
    unfold detect_throws_all1
    rw [Int.toNat_natCast]
    refine forall_congr' fun b => imp_congr_right fun _ => ?_
    have hb : (((t + 1 + b : ℕ) : ℤ)) = (1 : ℤ) + (t : ℤ) + (b : ℤ) := by omega
    rw [detect_sum]
    simp only [hb]
    rw [neg_one_mul, ← sub_eq_add_neg, sub_eq_zero]
  have h0 : ¬ detect_throws ls la t s as ↔ detect_throws_all0 ls la t s as ∧ detect_throws_all1 ls la t s as := by
    unfold detect_throws
    SIZES
  rw [h0, hd, hc]
  constructor
  · rintro ⟨hi, h⟩
    obtain ⟨f, hf, hy, he⟩ := lagr_exists_poly (t + 1) (fun j : ℕ => as j) (fun j => s j) hi
    refine ⟨hi, f, hf, fun j hj => ?_⟩
    by_cases hjt : j < t + 1
    · exact hy j hjt
    · have := h (j - (t + 1)) (by omega)
      rw [he, show t + 1 + (j - (t + 1)) = j by omega] at this
      exact this
  · rintro ⟨hi, f, hf, h⟩
    refine ⟨hi, fun b hb => ?_⟩
    rw [lagr_of_poly (t + 1) _ _ f hi hf (fun j hj => (h j (by omega)).symm)]
    exact h (t + 1 + b) (by omega)

/-- what an accepting run returns: the value of every polynomial of degree at most t that agrees with t + 1 of the 2t + 1 shares -/
theorem detect_value (ls la : ℤ) (t : ℕ) (hs : 2 * t + 1 ≤ ls) (ha : 2 * t + 1 ≤ la) (s as : ℤ → K) (x : K)
    (h : ¬ detect_throws ls la t s as) (hX : Set.InjOn (fun j : ℕ => as j) (range (2 * t + 1)))
    (g : K[X]) (hg : g.degree < (t + 1 : ℕ)) (A : Finset ℕ) (hA : A ⊆ range (2 * t + 1)) (hc : t + 1 ≤ A.card)
    (hv : ∀ j ∈ A, g.eval (as (j : ℕ)) = s (j : ℕ)) : detect t s as x = g.eval x := by
  obtain ⟨hi, f, hf, he⟩ := (detect_iff ls la t hs ha s as).mp h
  rw [detect_lagr, lagr_of_poly (t + 1) _ _ f hi hf (fun j hj => (he j (by omega)).symm)]
  congr 1
  refine Polynomial.eq_of_degree_sub_lt_of_eval_index_eq (s := A) (v := fun j : ℕ => as j)
    (hX.mono (by exact_mod_cast hA)) ?_ ?_
  · refine lt_of_le_of_lt (degree_sub_le _ _) (lt_of_lt_of_le (max_lt hf hg) (by exact_mod_cast hc))
  · intro j hj
    have : j < 2 * t + 1 := by simpa using hA hj
    rw [he j this, hv j hj]

end Vcg
