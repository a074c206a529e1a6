import Mathlib.LinearAlgebra.Lagrange
import Mathlib.Algebra.MvPolynomial.Eval
open scoped Classical
-- INCLUDE interp
-- EXPORTS

/-- what a gate is: gates are numbered in the order they were built, an input gate has its position in the list of inputs -/
inductive Kind
  | input (i : ℕ) | add (l r : ℕ) | mul (l r : ℕ) | out (l : ℕ)

/-- the polynomial a gate stands for -/
noncomputable def meaning (K : Type*) [Field K] (g : ℕ → Kind) (w : ℕ) : MvPolynomial ℕ K :=
  match g w with
  | .input i => MvPolynomial.X i
  | .add l r => if h : l < w ∧ r < w then meaning K g l + meaning K g r else 0
  | .mul l r => if h : l < w ∧ r < w then meaning K g l * meaning K g r else 0
  | .out l => if h : l < w then meaning K g l else 0
termination_by w
decreasing_by all_goals omega

/-- The clear value of every gate is the value of its polynomial on the inputs, whatever gates have their value remembered,
    as long as a remembered value is right; and what is remembered afterwards is right again. -/
theorem clear_correct (g : ℕ → Kind) (inp : ℕ → K) (known : ℕ → Prop) (memo : ℕ → K) (clear : ℤ → K)
    (inv : ∀ w, known w → memo w = (meaning K g w).eval inp)
    (hi : ∀ w i, g w = .input i → clear w = inp i)
    (ha : ∀ w l r, g w = .add l r → l < w ∧ r < w ∧ clear w = addGetClear (known w) (memo w) clear l r)
    (hm : ∀ w l r, g w = .mul l r → l < w ∧ r < w ∧ clear w = mulGetClear (known w) (memo w) clear l r)
    (ho : ∀ w l, g w = .out l → l < w ∧ clear w = outGetClear (known w) (memo w) clear l)
    (w : ℕ) : clear w = (meaning K g w).eval inp := by
  induction w using Nat.strong_induction_on with
  | _ w ih =>
    cases h : g w with
    | input i => rw [hi w i h]; unfold meaning; rw [h]; simp
    | add l r =>
      obtain ⟨hl, hr, e⟩ := ha w l r h
      have m : (meaning K g w).eval inp = clear l + clear r := by
        rw [ih l hl, ih r hr]; conv_lhs => unfold meaning
        rw [h]; simp [hl, hr]
      rw [m, e]
      by_cases k : known w
      · simp [addGetClear, k, inv w k, m]
      · simp [addGetClear, k]
    | mul l r =>
      obtain ⟨hl, hr, e⟩ := hm w l r h
      have m : (meaning K g w).eval inp = clear l * clear r := by
        rw [ih l hl, ih r hr]; conv_lhs => unfold meaning
        rw [h]; simp [hl, hr]
      rw [m, e]
      by_cases k : known w
      · simp [mulGetClear, k, inv w k, m]
      · simp [mulGetClear, k]
    | out l =>
      obtain ⟨hl, e⟩ := ho w l h
      have m : (meaning K g w).eval inp = clear l := by
        rw [ih l hl]; conv_lhs => unfold meaning
        rw [h]; simp [hl]
      rw [m, e]
      by_cases k : known w
      · simp [outGetClear, k, inv w k, m]
      · simp [outGetClear, k]

/-- what a gate remembers after it was asked is its value -/
theorem remembered (g : ℕ → Kind) (inp : ℕ → K) (known : ℕ → Prop) (memo : ℕ → K) (clear : ℤ → K) (w l r : ℕ)
    (inv : known w → memo w = (meaning K g w).eval inp)
    (e : clear w = (meaning K g w).eval inp) :
    (g w = .add l r → clear w = addGetClear (known w) (memo w) clear l r → addMemo (known w) (memo w) clear l r = (meaning K g w).eval inp) ∧
    (g w = .mul l r → clear w = mulGetClear (known w) (memo w) clear l r → mulMemo (known w) (memo w) clear l r = (meaning K g w).eval inp) := by
  constructor
  · intro _ h
    rw [← e, h]
    by_cases k : known w <;> simp [addMemo, addGetClear, k]
  · intro _ h
    rw [← e, h]
    by_cases k : known w <;> simp [mulMemo, mulGetClear, k]

end Vcg
