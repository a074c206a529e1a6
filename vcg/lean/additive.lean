import Mathlib.LinearAlgebra.Lagrange
open Finset
open scoped Classical
namespace Vcg
variable {K : Type*} [Field K]
-- EXPORTS

theorem reconstruct_eq (n : ℤ) (s : ℤ → K) : reconstruct n s = ∑ j ∈ range n.toNat, s j := rfl

/-- the shares of a secret sum to it -/
theorem shares_sum (n : ℕ) (h : 1 ≤ n) (s : K) (rnd : ℤ → K) (c : ℤ) :
    reconstruct n (fun i => share n s rnd c i) = s := by
  rw [reconstruct_eq, Int.toNat_natCast]
  obtain ⟨m, rfl⟩ : ∃ m, n = m + 1 := ⟨n - 1, by omega⟩
  rw [sum_range_succ']
  have hm : ((-1 : ℤ) + ((m + 1 : ℕ) : ℤ)).toNat = m := by omega
  have h0 : share ((m + 1 : ℕ) : ℤ) s rnd c ((0 : ℕ) : ℤ) = s - ∑ j ∈ range m, rnd (c + j) := by
    unfold share share_sumK0
    rw [hm]
    simp [add_comm, sub_eq_add_neg]
  have h1 : ∀ j ∈ range m, share ((m + 1 : ℕ) : ℤ) s rnd c ((j + 1 : ℕ) : ℤ) = rnd (c + j) := by
    intro j _
    have e : ¬ (((j + 1 : ℕ) : ℤ) = 0) := by omega
    have a : (-1 : ℤ) + ((j + 1 : ℕ) : ℤ) + c = c + j := by omega
    unfold share
    simp only [e, if_false, a]
    ring
  rw [h0, sum_congr rfl h1]
  ring

/-- all shares but one are the generator's output -/
theorem shares_random (n i : ℕ) (h : 1 ≤ i) (s : K) (rnd : ℤ → K) (c : ℤ) : share n s rnd c i = rnd (c + i - 1) := by
  have e : ¬ ((i : ℤ) = 0) := by omega
  have a : (-1 : ℤ) + (i : ℤ) + c = c + i - 1 := by omega
  unfold share
  simp only [e, if_false, a]
  ring

/-- sharing is linear: the entry-wise sum of sharings reconstructs to the sum -/
theorem linear (n : ℤ) (a b : ℤ → K) : reconstruct n (fun i => a i + b i) = reconstruct n a + reconstruct n b := by
  simp only [reconstruct_eq, sum_add_distrib]
end Vcg
