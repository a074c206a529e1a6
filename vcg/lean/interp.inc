
open Finset Polynomial
namespace Vcg
variable {K : Type*} [Field K]

/-- the Lagrange form -/
def lagr (n : ℕ) (X Y : ℕ → K) (x : K) : K :=
  ∑ j ∈ range n, Y j * ∏ m ∈ range n, if m = j then 1 else (x - X m) * (X j - X m)⁻¹

theorem lagr_eval_interpolate [DecidableEq K] (n : ℕ) (X Y : ℕ → K) (x : K) :
    lagr n X Y x = (Lagrange.interpolate (range n) X Y).eval x := by
  rw [Lagrange.interpolate_apply, eval_finsetSum, lagr]
  refine sum_congr rfl fun j hj => ?_
  rw [eval_mul, eval_C, Lagrange.basis, eval_prod]
  congr 1
  rw [← mul_prod_erase _ _ hj, if_pos rfl, one_mul]
  refine prod_congr rfl fun m hm => ?_
  rw [if_neg (ne_of_mem_erase hm), Lagrange.basisDivisor, eval_mul, eval_C, eval_sub, eval_X, eval_C, mul_comm]

theorem lagr_of_poly (n : ℕ) (X Y : ℕ → K) (f : K[X]) (hX : Set.InjOn X (range n)) (hd : f.degree < n)
    (hY : ∀ j < n, Y j = f.eval (X j)) (x : K) : lagr n X Y x = f.eval x := by
  classical
  rw [lagr_eval_interpolate]
  congr 1
  refine (Lagrange.eq_interpolate_of_eval_eq (s := range n) (v := X) (r := Y) hX (by simpa using hd) ?_).symm
  intro j hj
  exact (hY j (by simpa using hj)).symm

theorem lagr_exists_poly (n : ℕ) (X Y : ℕ → K) (hX : Set.InjOn X (range n)) :
    ∃ f : K[X], f.degree < n ∧ (∀ j < n, f.eval (X j) = Y j) ∧ ∀ x, lagr n X Y x = f.eval x := by
  classical
  refine ⟨Lagrange.interpolate (range n) X Y, ?_, ?_, fun x => lagr_eval_interpolate n X Y x⟩
  · simpa using Lagrange.degree_interpolate_lt (s := range n) (v := X) Y hX
  · intro j hj
    exact Lagrange.eval_interpolate_at_node Y hX (by simpa using hj)

theorem ind_eq (m j : ℕ) : ((m : ℤ) + (-1 : ℤ) * (j : ℤ) = 0) = (m = j) := by
  apply propext; omega

theorem inv_flip (a b : K) : (a + (-1 : K) * b)⁻¹ = -(b - a)⁻¹ := by
  rw [← inv_neg]; congr 1; ring

theorem ind_distinct (n : ℕ) (x : ℕ → K) :
    (∀ b2 < n, ∀ b1 < n, ((1 : ℤ) + (if ((b1 : ℤ) + (-1 : ℤ) * (b2 : ℤ)) = 0 then (1 : ℤ) else 0) *
      (if (x b1 + (-1 : K) * x b2) = 0 then (1 : ℤ) else 0) + (-1 : ℤ) * (if (x b1 + (-1 : K) * x b2) = 0 then (1 : ℤ) else 0)) = 1)
    ↔ Set.InjOn x (range n) := by
  have e : ∀ a b : K, a + (-1 : K) * b = 0 ↔ a = b := fun a b => by
    rw [neg_one_mul, ← sub_eq_add_neg, sub_eq_zero]
  simp only [ind_eq, e]
  constructor
  · intro h a ha b hb hab
    have := h b (by simpa using hb) a (by simpa using ha)
    by_contra hne
    simp [hne, hab] at this
  · intro h b hb a ha
    by_cases hx : x a = x b
    · have := h (by simpa using ha) (by simpa using hb) hx
      simp [this]
    · simp [hx]

theorem not_ind (p : Prop) [Decidable p] : (((1 : ℤ) + (-1 : ℤ) * (if p then (1 : ℤ) else 0)) = 1) = ¬ p := by
  by_cases h : p <;> simp [h]

/-- a node gives its own value -/
theorem lagr_node (n : ℕ) (X Y : ℕ → K) (hX : Set.InjOn X (range n)) (i : ℕ) (hi : i < n) : lagr n X Y (X i) = Y i := by
  obtain ⟨f, _, hy, he⟩ := lagr_exists_poly n X Y hX
  rw [he, hy i hi]

/-- re-interpolating from d or more values of the polynomial gives the polynomial -/
theorem lagr_again (d n : ℕ) (hd : d ≤ n) (X Y P : ℕ → K) (hX : Set.InjOn X (range d)) (hP : Set.InjOn P (range n)) (x : K) :
    lagr n P (fun j => lagr d X Y (P j)) x = lagr d X Y x := by
  obtain ⟨f, hf, -, he⟩ := lagr_exists_poly d X Y hX
  rw [he x]
  exact lagr_of_poly n P _ f hP (lt_of_lt_of_le hf (by exact_mod_cast hd)) (fun j _ => he (P j)) x

theorem lagr_congr (n : ℕ) (X X' Y Y' : ℕ → K) (x x' : K) (hX : ∀ j < n, X j = X' j) (hY : ∀ j < n, Y j = Y' j) (hx : x = x') :
    lagr n X Y x = lagr n X' Y' x' := by
  subst hx
  refine sum_congr rfl fun j hj => ?_
  rw [hY j (by simpa using hj)]
  congr 1
  refine prod_congr rfl fun m hm => ?_
  rw [hX j (by simpa using hj), hX m (by simpa using hm)]

/-- integers at distance below p are different in a field of characteristic p -/
theorem cast_inj_of_close {p : ℕ} [CharP K p] (a b : ℤ) (h : |a - b| < p) (e : (a : K) = b) : a = b := by
  have h0 : ((a - b : ℤ) : K) = 0 := by push_cast; rw [e, sub_self]
  have hd := (CharP.intCast_eq_zero_iff K p (a - b)).mp h0
  have := Int.eq_zero_of_abs_lt_dvd hd h
  omega

/-- the canonical party points 1, 2, ... -/
def alpha (j : ℕ) : K := (j : K) + 1

theorem alphas_inj {p : ℕ} [CharP K p] (n : ℕ) (h : n ≤ p) : Set.InjOn (alpha (K := K)) (range n) := by
  intro a ha b hb e
  have ha' : a < n := by simpa using ha
  have hb' : b < n := by simpa using hb
  have := cast_inj_of_close (K := K) (p := p) (a + 1) (b + 1) (by rw [abs_lt]; omega) (by push_cast; simpa [alpha] using e)
  omega
