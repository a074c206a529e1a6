import Mathlib.LinearAlgebra.Lagrange
open scoped Classical
-- INCLUDE interp
-- EXPORTS

/-- a remembered value is what the first call computed -/
theorem add_mu (known : Prop) (memo : K) (mu : ℤ → K) (l r : ℤ) (h : known → memo = mu l + mu r) : addGetMu known memo mu l r = mu l + mu r := by
  by_cases k : known
  · simp [addGetMu, k, h k]
  · simp [addGetMu, k]

theorem add_lambda (known : Prop) (memo : K) (lam : ℤ → K) (l r : ℤ) (h : known → memo = lam l + lam r) :
    addGetDummyLambda known memo lam l r = lam l + lam r := by
  by_cases k : known
  · simp [addGetDummyLambda, k, h k]
  · simp [addGetDummyLambda, k]

theorem add_clear (known : Prop) (memo : K) (clear : ℤ → K) (l r : ℤ) (h : known → memo = clear l + clear r) :
    addGetClear known memo clear l r = clear l + clear r := by
  by_cases k : known
  · simp [addGetClear, k, h k]
  · simp [addGetClear, k]

theorem mul_clear (known : Prop) (memo : K) (clear : ℤ → K) (l r : ℤ) (h : known → memo = clear l * clear r) :
    mulGetClear known memo clear l r = clear l * clear r := by
  by_cases k : known
  · simp [mulGetClear, k, h k]
  · simp [mulGetClear, k]

theorem out_mu (known : Prop) (memo : K) (mu : ℤ → K) (l : ℤ) (h : known → memo = mu l) : outGetMu known memo mu l = mu l := by
  by_cases k : known
  · simp [outGetMu, k, h k]
  · simp [outGetMu, k]

theorem out_clear (known : Prop) (memo : K) (clear : ℤ → K) (l : ℤ) (h : known → memo = clear l) : outGetClear known memo clear l = clear l := by
  by_cases k : known
  · simp [outGetClear, k, h k]
  · simp [outGetClear, k]

/-- what a wire is: gates are numbered so that inputs of a gate come before it -/
inductive Kind
  | input | pad
  | add (l r : ℕ) | mul (l r : ℕ) | out (l : ℕ)

/-- Every wire of every circuit: if inputs are opened as value - mask, padding is 0 with mask 0, multiplications as `batch_correct`
    says, and additions and outputs as their contracts say, then opened value + mask = clear value on every wire. -/
theorem wires_correct (g : ℕ → Kind) (clear mu lam : ℤ → K)
    (hi : ∀ w, g w = .input → mu w = clear w - lam w)
    (hp : ∀ w, g w = .pad → mu w = 0 ∧ lam w = 0 ∧ clear w = 0)
    (ha : ∀ w l r, g w = .add l r → l < w ∧ r < w ∧ (∃ m, mu w = addGetMu False m mu l r) ∧
      (∃ m, lam w = addGetDummyLambda False m lam l r) ∧ ∃ m, clear w = addGetClear False m clear l r)
    (hm : ∀ w l r, g w = .mul l r → l < w ∧ r < w ∧ mu w = (mu l + lam l) * (mu r + lam r) - lam w ∧
      ∃ m, clear w = mulGetClear False m clear l r)
    (ho : ∀ w l, g w = .out l → l < w ∧ (∃ m, mu w = outGetMu False m mu l) ∧ lam w = lam l ∧ ∃ m, clear w = outGetClear False m clear l)
    (w : ℕ) : mu w + lam w = clear w := by
  induction w using Nat.strong_induction_on with
  | _ w ih =>
    cases h : g w with
    | input => rw [hi w h]; ring
    | pad => obtain ⟨h1, h2, h3⟩ := hp w h; rw [h1, h2, h3]; ring
    | add l r =>
      obtain ⟨hl, hr, ⟨m1, h1⟩, ⟨m2, h2⟩, ⟨m3, h3⟩⟩ := ha w l r h
      rw [h1, h2, h3, add_mu _ _ _ _ _ (fun f => f.elim), add_lambda _ _ _ _ _ (fun f => f.elim), add_clear _ _ _ _ _ (fun f => f.elim),
        ← ih l hl, ← ih r hr]
      ring
    | mul l r =>
      obtain ⟨hl, hr, h1, ⟨m, h2⟩⟩ := hm w l r h
      rw [h1, h2, mul_clear _ _ _ _ _ (fun f => f.elim), ← ih l hl, ← ih r hr]
      ring
    | out l =>
      obtain ⟨hl, ⟨m1, h1⟩, h2, ⟨m2, h3⟩⟩ := ho w l h
      rw [h1, h2, h3, out_mu _ _ _ _ (fun f => f.elim), out_clear _ _ _ _ (fun f => f.elim), ← ih l hl]

end Vcg
