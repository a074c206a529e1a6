import Mathlib.LinearAlgebra.Lagrange
open scoped Classical
-- INCLUDE interp
-- EXPORTS

theorem evaluate_lagr (n : ℤ) (xs ys : ℤ → K) (x : K) :
    evaluate n xs ys x = lagr n.toNat (fun j => xs j) (fun j => ys j) x := by
  unfold evaluate lagr
  LAGR

theorem evaluate_throws_iff (n : ℤ) (xs : ℤ → K) :
    evaluate_throws n xs ↔ ¬ Set.InjOn (fun j : ℕ => xs j) (range n.toNat) := by
  unfold evaluate_throws
  rw [not_ind]
  exact not_congr (ind_distinct n.toNat (fun j : ℕ => xs j))

/-- Evaluate gives the value of the one polynomial of degree below n through the points, and rejects exactly repeated points -/
theorem evaluate_correct (n : ℤ) (xs ys : ℤ → K) (h : ¬ evaluate_throws n xs) :
    ∃! f : K[X], f.degree < n.toNat ∧ (∀ j < n.toNat, f.eval (xs j) = ys j) ∧ ∀ x, evaluate n xs ys x = f.eval x := by
  have hi := not_not.mp (fun c => h ((evaluate_throws_iff n xs).mpr c))
  obtain ⟨f, hd, hy, he⟩ := lagr_exists_poly n.toNat (fun j => xs j) (fun j => ys j) hi
  refine ⟨f, ⟨hd, hy, fun x => by rw [evaluate_lagr, he]⟩, ?_⟩
  rintro g ⟨hgd, hgy, -⟩
  refine Polynomial.eq_of_degree_sub_lt_of_eval_index_eq (s := range n.toNat) (v := fun j : ℕ => xs j) hi ?_ ?_
  · exact lt_of_le_of_lt (degree_sub_le _ _) (by simpa using max_lt hgd hd)
  · intro j hj
    have hj' : j < n.toNat := by simpa using hj
    rw [hgy j hj', hy j hj']

/-- every point of a vector at once -/
theorem evaluate_all_correct (n : ℤ) (xs ys as : ℤ → K) (i : ℤ) (x : K) (hx : as i = x) :
    evaluate_all n xs ys as i = evaluate n xs ys x := by
  subst hx
  rw [evaluate_lagr]
  unfold evaluate_all lagr
  LAGR
end Vcg
