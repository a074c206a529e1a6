import Mathlib.NumberTheory.LucasLehmer
import Mathlib.Data.ZMod.Basic
open scoped Classical
namespace Vcg

theorem mersenne61_prime : Nat.Prime (2 ^ 61 - 1) := by
  have h : (mersenne 61).Prime := lucas_lehmer_sufficiency _ (by norm_num) (by norm_num)
  exact h

theorem mersenne127_prime : Nat.Prime (2 ^ 127 - 1) := by
  have h : (mersenne 127).Prime := lucas_lehmer_sufficiency _ (by norm_num) (by norm_num)
  exact h

/-- every nonzero element has exactly one inverse, so x * y = 1 determines what Invert returns -/
theorem inverse_unique (p : ℕ) (hp : p.Prime) (x : ZMod p) (hx : x ≠ 0) : ∃! y : ZMod p, x * y = 1 := by
  haveI := Fact.mk hp
  exact ⟨x⁻¹, mul_inv_cancel₀ hx, fun y hy => eq_inv_of_mul_eq_one_right hy⟩
end Vcg
