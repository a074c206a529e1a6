import Mathlib.LinearAlgebra.Lagrange
open scoped Classical
-- INCLUDE interp
-- EXPORTS

theorem shares_lagr (n : ℤ) (xs ys : ℤ → K) (i : ℕ) :
    shares n xs ys i = lagr n.toNat (fun j => xs j) (fun j => ys j) (alpha i) := by
  unfold shares lagr alpha
  LAGR

theorem secrets_lagr (n : ℤ) (s : ℤ → K) (i : ℕ) :
    secrets n s i = lagr n.toNat alpha (fun j => s j) (-(i : K)) := by
  unfold secrets lagr alpha
  LAGR

theorem secretsAt_lagr (n : ℤ) (s xs : ℤ → K) (i : ℤ) :
    secretsAt n s xs i = lagr n.toNat alpha (fun j => s j) (xs i) := by
  unfold secretsAt lagr alpha
  LAGR

theorem secretAt_lagr (n : ℤ) (s : ℤ → K) (x : K) :
    secretAt n s x = lagr n.toNat alpha (fun j => s j) x := by
  unfold secretAt lagr alpha
  LAGR

theorem secret_lagr (n : ℤ) (s : ℤ → K) :
    secret n s = lagr n.toNat alpha (fun j => s j) 0 := by
  unfold secret lagr alpha
  LAGR

theorem point_distinct {p : ℕ} [CharP K p] (ns d : ℕ) (hp : d < p) :
    Set.InjOn (fun j : ℕ => (degX ns j : K)) (range (d + 1)) := by
  intro a ha b hb e
  have ha' : a < d + 1 := by simpa using ha
  have hb' : b < d + 1 := by simpa using hb
  have f : ∀ j : ℕ, (degX ns j : K) = (((if j < ns then -(j : ℤ) else (j : ℤ) - ns + 1) : ℤ) : K) := by
    intro j
    unfold degX
    by_cases h : j < ns
    · have h1 : ¬ (0 ≤ (j : ℤ) + (-1 : ℤ) * (ns : ℤ)) := by omega
      simp only [h, h1, if_true, if_false]
      push_cast
      ring
    · have h1 : 0 ≤ (j : ℤ) + (-1 : ℤ) * (ns : ℤ) := by omega
      simp only [h, h1, if_true, if_false]
      push_cast
      ring
  have := cast_inj_of_close (K := K) (p := p) (if a < ns then -(a : ℤ) else (a : ℤ) - ns + 1)
    (if b < ns then -(b : ℤ) else (b : ℤ) - ns + 1) (by
      rw [abs_lt]
      constructor <;> split_ifs <;> omega) (by rw [← f a, ← f b]; exact e)
  split_ifs at this <;> omega

/-- default positions: every secret comes back in its own slot, from any admissible degree and number of shares -/
theorem default_positions_roundtrip {p : ℕ} [CharP K p] (ns d n : ℕ) (hs : ns ≤ d + 1) (hn : d + 1 ≤ n) (hp : n ≤ p)
    (s rnd : ℤ → K) (c : ℤ) (i : ℕ) (hi : i < ns) :
    secrets n (shares (d + 1) (fun j => degX ns j) (fun j => degY ns s rnd c j)) i = s i := by
  rw [secrets_lagr, lagr_congr _ alpha alpha _ (fun j => lagr (d + 1) (fun j => degX ns j) (fun j => degY ns s rnd c j) (alpha j)) _ _
    (fun _ _ => rfl) (fun j _ => by rw [shares_lagr]; norm_cast) rfl]
  have hX := point_distinct (K := K) ns d (by omega)
  have hP : Set.InjOn (alpha (K := K)) (range (n : ℤ).toNat) := by
    rw [Int.toNat_natCast]
    exact alphas_inj n hp
  rw [lagr_again (d + 1) (n : ℤ).toNat (by omega) _ _ _ hX hP]
  have hx : (-(i : K)) = degX ns i := by
    have h1 : ¬ (0 ≤ (i : ℤ) + (-1 : ℤ) * (ns : ℤ)) := by omega
    unfold degX
    simp only [h1, if_false]
    push_cast
    ring
  rw [hx, lagr_node (d + 1) (fun j : ℕ => (degX ns j : K)) _ hX i (by omega)]
  have h1 : ¬ (0 ≤ (i : ℤ) + (-1 : ℤ) * (ns : ℤ)) := by omega
  unfold degY
  simp only [h1, if_false]
  ring

/-- explicitly chosen, distinct positions -/
theorem chosen_positions_roundtrip {p : ℕ} [CharP K p] (ns m n : ℕ) (hs : ns ≤ m) (hn : m ≤ n) (hp : n ≤ p)
    (s xs rnd ps : ℤ → K) (c : ℤ) (hX : Set.InjOn (fun j : ℕ => xs j) (range m)) (i : ℕ) (hi : i < ns) (hps : ps i = xs i) :
    secretsAt n (shares m (fun j => ptX xs j) (fun j => ptY ns s rnd c j)) ps i = s i := by
  rw [secretsAt_lagr, lagr_congr _ alpha alpha _ (fun j => lagr m (fun j : ℕ => xs j) (fun j => ptY ns s rnd c j) (alpha j)) _ (xs i)
    (fun _ _ => rfl) (fun j _ => by rw [shares_lagr]; simp [ptX]) hps]
  have hP : Set.InjOn (alpha (K := K)) (range (n : ℤ).toNat) := by
    rw [Int.toNat_natCast]
    exact alphas_inj n hp
  rw [lagr_again m (n : ℤ).toNat (by omega) _ _ _ hX hP, lagr_node m (fun j : ℕ => xs j) _ hX i (by omega)]
  have h1 : ¬ (0 ≤ (i : ℤ) + (-1 : ℤ) * (ns : ℤ)) := by omega
  unfold ptY
  simp only [h1, if_false]
  ring

/-- one secret, at zero -/
theorem single_roundtrip {p : ℕ} [CharP K p] (d n : ℕ) (hn : d + 1 ≤ n) (hp : n ≤ p) (s : K) (rnd : ℤ → K) (c : ℤ) :
    secret n (shares (d + 1) (fun j => oneX j) (fun j => oneY s rnd c j)) = s := by
  have hX : Set.InjOn (fun j : ℕ => (oneX j : K)) (range (d + 1)) := by
    intro a ha b hb e
    have ha' : a < d + 1 := by simpa using ha
    have hb' : b < d + 1 := by simpa using hb
    have := cast_inj_of_close (K := K) (p := p) a b (by rw [abs_lt]; omega) (by simpa [oneX] using e)
    omega
  rw [secret_lagr, lagr_congr _ alpha alpha _ (fun j => lagr (d + 1) (fun j => oneX j) (fun j => oneY s rnd c j) (alpha j)) _ _
    (fun _ _ => rfl) (fun j _ => by rw [shares_lagr]; norm_cast) rfl]
  have hP : Set.InjOn (alpha (K := K)) (range (n : ℤ).toNat) := by
    rw [Int.toNat_natCast]
    exact alphas_inj n hp
  rw [lagr_again (d + 1) (n : ℤ).toNat (by omega) _ _ _ hX hP]
  have hx : (0 : K) = oneX (0 : ℕ) := by simp [oneX]
  rw [hx, lagr_node (d + 1) (fun j : ℕ => (oneX j : K)) _ hX 0 (by omega)]
  simp [oneY]

/-- one secret at a chosen point, different from the other nodes 1, ..., d -/
theorem single_at_roundtrip {p : ℕ} [CharP K p] (d n : ℕ) (hn : d + 1 ≤ n) (hp : n ≤ p) (s x : K) (rnd : ℤ → K) (c : ℤ)
    (hx : ∀ j : ℕ, 1 ≤ j → j ≤ d → x ≠ (j : K)) :
    secretAt n (shares (d + 1) (fun j => atX x j) (fun j => atY s rnd c j)) x = s := by
  have f : ∀ j : ℕ, (atX x j : K) = if j = 0 then x else (j : K) := by
    intro j
    unfold atX
    by_cases h : j = 0 <;> simp [h]
  have hX : Set.InjOn (fun j : ℕ => (atX x j : K)) (range (d + 1)) := by
    intro a ha b hb e
    have ha' : a < d + 1 := by simpa using ha
    have hb' : b < d + 1 := by simpa using hb
    simp only [f] at e
    by_cases h0 : a = 0 <;> by_cases h1 : b = 0
    · omega
    · simp only [h0, h1, if_true, if_false] at e
      exact absurd e (hx b (by omega) (by omega))
    · simp only [h0, h1, if_true, if_false] at e
      exact absurd e.symm (hx a (by omega) (by omega))
    · simp only [h0, h1, if_false] at e
      have := cast_inj_of_close (K := K) (p := p) a b (by rw [abs_lt]; omega) (by simpa using e)
      omega
  rw [secretAt_lagr, lagr_congr _ alpha alpha _ (fun j => lagr (d + 1) (fun j => atX x j) (fun j => atY s rnd c j) (alpha j)) _ _
    (fun _ _ => rfl) (fun j _ => by rw [shares_lagr]; norm_cast) rfl]
  have hP : Set.InjOn (alpha (K := K)) (range (n : ℤ).toNat) := by
    rw [Int.toNat_natCast]
    exact alphas_inj n hp
  rw [lagr_again (d + 1) (n : ℤ).toNat (by omega) _ _ _ hX hP]
  have h0 : x = atX x (0 : ℕ) := by rw [f]; simp
  have := lagr_node (d + 1) (fun j : ℕ => (atX x j : K)) (fun j => atY s rnd c j) hX 0 (by omega)
  simp only [f] at this
  simp only [if_true] at this
  simp only [f]
  rw [this]
  simp [atY]

/-- shares of sums are sums of shares: adding the share vectors adds the secrets, slot by slot -/
theorem sum_of_shares (n : ℤ) (a b : ℤ → K) (i : ℕ) :
    secrets n (fun j => a j + b j) i = secrets n a i + secrets n b i := by
  simp only [secrets_lagr, lagr, ← sum_add_distrib, add_mul]

end Vcg
