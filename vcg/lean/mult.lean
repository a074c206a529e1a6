import Mathlib.LinearAlgebra.Lagrange
open scoped Classical
-- INCLUDE interp
-- EXPORTS

/-- the positions of the packed secrets: 0, -1, -2, ... -/
def beta (j : ℕ) : K := -(j : K)

theorem betas_inj {p : ℕ} [CharP K p] (n : ℕ) (h : n ≤ p) : Set.InjOn (beta (K := K)) (range n) := by
  intro a ha b hb e
  have ha' : a < n := by simpa using ha
  have hb' : b < n := by simpa using hb
  have e' : (a : K) = (b : K) := by simpa [beta] using e
  have := cast_inj_of_close (K := K) (p := p) a b (by rw [abs_lt]; omega) (by push_cast; exact e')
  omega

theorem ind_eq' (m j : ℕ) : ((m : ℤ) + (-1 : ℤ) * (j : ℤ) = 0) = (m = j) := ind_eq m j

lemma mul_swap {a a' y : K} (h : a = a') : a * y = y * a' := by rw [h, mul_comm]
lemma mul_same {a a' y : K} (h : a = a') : y * a = y * a' := by rw [h]
lemma mul3a {a c a' c' r : K} (h : a = a') (g : c = c') : a * r * c = r * c' * a' := by rw [h, g]; ring
lemma mul3b {a c a' c' r : K} (h : a = a') (g : c = c') : a * c * r = r * c' * a' := by rw [h, g]; ring
lemma mul3c {a c a' c' r : K} (h : a = a') (g : c = c') : c * r * a = r * c' * a' := by rw [h, g]; ring
lemma mul3d {a c a' c' r : K} (h : a = a') (g : c = c') : c * a * r = r * c' * a' := by rw [h, g]; ring
lemma mul3e {a c a' c' r : K} (h : a = a') (g : c = c') : r * a * c = r * c' * a' := by rw [h, g]; ring
lemma mul3f {a c a' c' r : K} (h : a = a') (g : c = c') : r * c * a = r * c' * a' := by rw [h, g]

macro "prodn" j:ident : tactic => `(tactic| (
  refine prod_congr rfl fun m _ => ?_
  simp only [ind_eq]
  by_cases h : m = $j
  · subst h
    simp
  · first
    | (simp only [h, if_false]; push_cast; ring1)
    | (simp only [h, if_false, inv_flip]; push_cast; ring1)))

macro "lagn" : tactic => `(tactic| (
  refine sum_congr rfl fun j _ => ?_
  first
  | (refine mul_same ?_; prodn j)
  | (refine mul_swap ?_; prodn j)))

macro "lagn2" : tactic => `(tactic| (
  refine sum_congr rfl fun s _ => ?_
  rw [sum_mul]
  refine sum_congr rfl fun j _ => ?_
  first
  | (refine mul3a ?_ ?_; (prodn s); (prodn j))
  | (refine mul3b ?_ ?_; (prodn s); (prodn j))
  | (refine mul3c ?_ ?_; (prodn s); (prodn j))
  | (refine mul3d ?_ ?_; (prodn s); (prodn j))
  | (refine mul3e ?_ ?_; (prodn s); (prodn j))
  | (refine mul3f ?_ ?_; (prodn s); (prodn j))))

/-- what P1 sends to party i in the online phase -/
theorem p1Sends_left (n k : ℕ) (mu : ℤ → K) (adL adR : ℤ → ℤ) (len : ℤ → ℤ) (old : ℤ → ℤ → K) (i : ℕ) (hi : i < n) :
    p1Sends 0 n k mu adL adR len old i (len i) = lagr k beta (fun j => mu (adL j)) (alpha i) := by
  have h : ¬ (0 ≤ (i : ℤ) + (-1 : ℤ) * (n : ℤ)) := by omega
  have e : p1Sends_sumK0 0 n k mu adL adR len old i (len i) = lagr k beta (fun j => mu (adL j)) (alpha i) := by
    unfold p1Sends_sumK0 lagr alpha beta
    lagn
  rw [← e]
  unfold p1Sends
  have h2 : ¬ n ≤ i := by omega
  simp [h, h2]

theorem p1Sends_right (n k : ℕ) (mu : ℤ → K) (adL adR : ℤ → ℤ) (len : ℤ → ℤ) (old : ℤ → ℤ → K) (i : ℕ) (hi : i < n) :
    p1Sends 0 n k mu adL adR len old i (len i + 1) = lagr k beta (fun j => mu (adR j)) (alpha i) := by
  have h : ¬ (0 ≤ (i : ℤ) + (-1 : ℤ) * (n : ℤ)) := by omega
  have e : p1Sends_sumK1 0 n k mu adL adR len old i (len i + 1) = lagr k beta (fun j => mu (adR j)) (alpha i) := by
    unfold p1Sends_sumK1 lagr alpha beta
    lagn
  rw [← e]
  unfold p1Sends
  have h2 : ¬ n ≤ i := by omega
  simp [h, h2]

theorem partySend_eq (muA muB lamA lamB delta : K) (len : ℤ → ℤ) (old : ℤ → ℤ → K) :
    partySend muA muB lamA lamB delta len old 0 (len 0) = muA * muB + muA * lamB + muB * lamA + delta := by
  simp [partySend]

theorem p1Opens_lagr (n k : ℕ) (prev : ℤ → K) (head : ℤ → ℤ) (recv : ℤ → ℤ → K) (s : ℕ) (hs : s < k) :
    p1Opens 0 n k prev head recv s = lagr n alpha (fun j => recv j (head j)) (beta s) := by
  have h : ¬ (0 ≤ (s : ℤ) + (-1 : ℤ) * (k : ℤ)) := by omega
  have e : p1Opens_sumK0 0 n k prev head recv s = lagr n alpha (fun j => recv j (head j)) (beta s) := by
    unfold p1Opens_sumK0 lagr alpha beta
    lagn
  rw [← e]
  unfold p1Opens
  have h2 : ¬ k ≤ s := by omega
  simp [h, h2]

theorem basis_eq (k me : ℕ) (prev : ℤ → K) (j : ℕ) (hj : j < k) :
    basis k me 0 prev j = ∏ m ∈ range k, if m = j then 1 else ((alpha me : K) - beta m) * (beta j - beta m)⁻¹ := by
  have h : ¬ (0 ≤ (j : ℤ) + (-1 : ℤ) * (k : ℤ)) := by omega
  unfold basis alpha beta
  simp only [Int.natCast_nonneg, h, mul_zero, add_zero, if_true, if_false, mul_one, Int.cast_zero, sub_zero, Int.toNat_natCast]
  ring_nf
  refine prod_congr rfl fun m _ => ?_
  have e : ((j : ℤ) - (m : ℤ) = 0) = (m = j) := by apply propext; omega
  simp only [e]
  by_cases hm : m = j
  · subst hm
    simp
  · have f : ((m : K) - (j : K))⁻¹ = -((j : K) - (m : K))⁻¹ := by rw [← inv_neg]; congr 1; ring
    simp only [hm, if_false, f]
    push_cast
    ring

theorem fdSend_left (k : ℕ) (ei ind : ℤ → K) (adL adR : ℤ → ℤ) (key : ℤ) (A B O1 O2 : ℤ → K) (len : ℤ → ℤ) (old : ℤ → ℤ → K) :
    fdSend k ei ind adL adR key A B O1 O2 len old 0 (len 0) = ∑ j ∈ range k, ei j * ind (adL j) + A key + O1 key := by
  simp [fdSend, fdSend_sumK0]

theorem fdSend_right (k : ℕ) (ei ind : ℤ → K) (adL adR : ℤ → ℤ) (key : ℤ) (A B O1 O2 : ℤ → K) (len : ℤ → ℤ) (old : ℤ → ℤ → K) :
    fdSend k ei ind adL adR key A B O1 O2 len old 0 (len 0 + 1) = ∑ j ∈ range k, ei j * ind (adR j) + B key + O2 key := by
  simp [fdSend, fdSend_sumK1]
  ring

theorem fdP1_left (n k : ℕ) (head : ℤ → ℤ) (recv : ℤ → ℤ → K) (len : ℤ → ℤ) (old : ℤ → ℤ → K) (i : ℕ) (hi : i < n) :
    fdP1 0 n k head recv len old i (len i) =
      lagr k beta (fun s => lagr n alpha (fun j => recv j (head j)) (beta s)) (alpha i) := by
  have h : ¬ (0 ≤ (i : ℤ) + (-1 : ℤ) * (n : ℤ)) := by omega
  have e : fdP1_sumK0 0 n k head recv len old i (len i) =
      lagr k beta (fun s => lagr n alpha (fun j => recv j (head j)) (beta s)) (alpha i) := by
    unfold fdP1_sumK0 lagr alpha beta
    lagn2
  rw [← e]
  unfold fdP1
  have h2 : ¬ n ≤ i := by omega
  simp [h, h2]

theorem fdP1_right (n k : ℕ) (head : ℤ → ℤ) (recv : ℤ → ℤ → K) (len : ℤ → ℤ) (old : ℤ → ℤ → K) (i : ℕ) (hi : i < n) :
    fdP1 0 n k head recv len old i (len i + 1) =
      lagr k beta (fun s => lagr n alpha (fun j => recv j (head j + 1)) (beta s)) (alpha i) := by
  have h : ¬ (0 ≤ (i : ℤ) + (-1 : ℤ) * (n : ℤ)) := by omega
  have e : fdP1_sumK1 0 n k head recv len old i (len i + 1) =
      lagr k beta (fun s => lagr n alpha (fun j => recv j (head j + 1)) (beta s)) (alpha i) := by
    unfold fdP1_sumK1 lagr alpha beta
    simp only [add_comm (1 : ℤ)]
    lagn2
  rw [← e]
  unfold fdP1
  have h2 : ¬ n ≤ i := by omega
  simp [h, h2]

lemma mlr1 {a a' l r : K} (h : a = a') : l * a * r = l * r * a' := by rw [h]; ring
lemma mlr2 {a a' l r : K} (h : a = a') : l * r * a = l * r * a' := by rw [h]
lemma mlr3 {a a' l r : K} (h : a = a') : r * a * l = l * r * a' := by rw [h]; ring
lemma mlr4 {a a' l r : K} (h : a = a') : r * l * a = l * r * a' := by rw [h]; ring
lemma mlr5 {a a' l r : K} (h : a = a') : a * l * r = l * r * a' := by rw [h]; ring
lemma mlr6 {a a' l r : K} (h : a = a') : a * r * l = l * r * a' := by rw [h]; ring

theorem duA_lagr (me k : ℕ) (lam : ℤ → K) (adL : ℤ → ℤ) : duA me k lam adL = lagr k beta (fun j => lam (adL j)) (alpha me) := by
  unfold duA duA_sumK0 lagr alpha beta
  lagn

theorem duB_lagr (me k : ℕ) (lam : ℤ → K) (adR : ℤ → ℤ) : duB me k lam adR = lagr k beta (fun j => lam (adR j)) (alpha me) := by
  unfold duB duB_sumK0 lagr alpha beta
  lagn

theorem duDelta_lagr (me k : ℕ) (lam : ℤ → K) (adL adR ad : ℤ → ℤ) : duDelta me k lam adL adR ad =
    lagr k beta (fun j => lam (adL j) * lam (adR j)) (alpha me) - lagr k beta (fun j => lam (ad j)) (alpha me) := by
  have e1 : duDelta_sumK0 me k lam adL adR ad = lagr k beta (fun j => lam (adL j) * lam (adR j)) (alpha me) := by
    unfold duDelta_sumK0 lagr alpha beta
    refine sum_congr rfl fun j _ => ?_
    first
    | (refine mlr1 ?_; prodn j)
    | (refine mlr2 ?_; prodn j)
    | (refine mlr3 ?_; prodn j)
    | (refine mlr4 ?_; prodn j)
    | (refine mlr5 ?_; prodn j)
    | (refine mlr6 ?_; prodn j)
  have e2 : duDelta_sumK1 me k lam adL adR ad = lagr k beta (fun j => lam (ad j)) (alpha me) := by
    unfold duDelta_sumK1 lagr alpha beta
    lagn
  unfold duDelta
  rw [e1, e2]
  ring

theorem inSend_eq (k : ℕ) (ei ind : ℤ → K) (ad : ℤ → ℤ) (own key : ℤ) (O : ℤ → K) (len : ℤ → ℤ) (old : ℤ → ℤ → K) :
    inSend k ei ind ad own key O len old own (len own) = ∑ j ∈ range k, ei j * ind (ad j) + O key := by
  simp [inSend, inSend_sumK0]

theorem outSend_eq (k : ℕ) (ei ind : ℤ → K) (ad : ℤ → ℤ) (own key : ℤ) (O : ℤ → K) (len : ℤ → ℤ) (old : ℤ → ℤ → K) :
    outSend k ei ind ad own key O len old own (len own) = ∑ j ∈ range k, ei j * ind (ad j) + O key := by
  simp [outSend, outSend_sumK0]

theorem inMask_lagr (n k : ℕ) (own : ℤ) (prev : ℤ → K) (head : ℤ → ℤ) (recv : ℤ → ℤ → K) (s : ℕ) (hs : s < k) :
    inMask k own n own prev head recv s = lagr n alpha (fun j => recv j (head j)) (beta s) := by
  have h : ¬ (0 ≤ (s : ℤ) + (-1 : ℤ) * (k : ℤ)) := by omega
  have h2 : ¬ k ≤ s := by omega
  have e : inMask_sumK0 k own n own prev head recv s = lagr n alpha (fun j => recv j (head j)) (beta s) := by
    unfold inMask_sumK0 lagr alpha beta
    lagn
  rw [← e]
  unfold inMask
  simp [h, h2]

theorem outMask_lagr (n k : ℕ) (own : ℤ) (prev : ℤ → K) (head : ℤ → ℤ) (recv : ℤ → ℤ → K) (s : ℕ) (hs : s < k) :
    outMask k own n own prev head recv s = lagr n alpha (fun j => recv j (head j)) (beta s) := by
  have h : ¬ (0 ≤ (s : ℤ) + (-1 : ℤ) * (k : ℤ)) := by omega
  have h2 : ¬ k ≤ s := by omega
  have e : outMask_sumK0 k own n own prev head recv s = lagr n alpha (fun j => recv j (head j)) (beta s) := by
    unfold outMask_sumK0 lagr alpha beta
    lagn
  rw [← e]
  unfold outMask
  simp [h, h2]

lemma deg_mul {a b : K[X]} {x y n : ℕ} (ha : a.degree < x) (hb : b.degree < y) (h : x + y ≤ n + 1) : (a * b).degree < n := by
  by_cases h0 : a = 0
  · simp [h0, WithBot.bot_lt_coe]
  by_cases h1 : b = 0
  · simp [h1, WithBot.bot_lt_coe]
  have ha' := (natDegree_lt_iff_degree_lt h0).mpr ha
  have hb' := (natDegree_lt_iff_degree_lt h1).mpr hb
  rw [← natDegree_lt_iff_degree_lt (mul_ne_zero h0 h1), natDegree_mul h0 h1]
  omega

lemma deg_add {a b : K[X]} {n : ℕ} (ha : a.degree < n) (hb : b.degree < n) : (a + b).degree < n :=
  lt_of_le_of_lt (degree_add_le _ _) (max_lt ha hb)

lemma deg_sub {a b : K[X]} {n : ℕ} (ha : a.degree < n) (hb : b.degree < n) : (a - b).degree < n :=
  lt_of_le_of_lt (degree_sub_le _ _) (max_lt ha hb)

lemma deg_le {a : K[X]} {m n : ℕ} (ha : a.degree < m) (h : m ≤ n) : a.degree < n :=
  lt_of_lt_of_le ha (by exact_mod_cast h)

lemma deg_sum {f : ℕ → K[X]} {k n : ℕ} (h : ∀ j < k, (f j).degree < n) : (∑ j ∈ range k, f j).degree < n := by
  refine lt_of_le_of_lt (degree_sum_le _ _) ?_
  refine (Finset.sup_lt_iff (by exact WithBot.bot_lt_coe n)).mpr fun j hj => h j (by simpa using hj)

/-- the public polynomial e_j: one at position j, zero at the other positions of the batch -/
theorem basis_poly {p : ℕ} [CharP K p] (k : ℕ) (hp : k ≤ p) (j : ℕ) (hj : j < k) :
    ∃ e : K[X], e.degree < k ∧ (∀ s < k, e.eval (beta s) = if s = j then 1 else 0) ∧
      ∀ (me : ℕ) (prev : ℤ → K), basis k me 0 prev j = e.eval (alpha me) := by
  obtain ⟨e, h1, h2, h3⟩ := lagr_exists_poly k beta (fun s => if s = j then (1 : K) else 0) (betas_inj k hp)
  refine ⟨e, h1, h2, fun me prev => ?_⟩
  rw [← h3, basis_eq k me prev j hj, lagr, sum_eq_single j]
  · simp
  · intro b _ hb
    simp [hb]
  · intro h
    exact absurd (mem_range.mpr hj) h

/-- individual sharings at the batch positions, combined with the e_j: one packed sharing -/
theorem packed_poly {p : ℕ} [CharP K p] (n k : ℕ) (hkn : k ≤ n) (hp : n ≤ p) (f : ℕ → K[X]) (hf : ∀ j < k, (f j).degree < ((n - k + 1 : ℕ) : WithBot ℕ)) :
    ∃ g : K[X], g.degree < n ∧ (∀ s < k, g.eval (beta s) = (f s).eval (beta s)) ∧
      ∀ (me : ℕ) (prev : ℤ → K), ∑ j ∈ range k, basis k me 0 prev j * (f j).eval (alpha me) = g.eval (alpha me) := by
  have hb := fun j (hj : j < k) => basis_poly (K := K) (p := p) k (by omega) j hj
  choose e h1 h2 h3 using hb
  refine ⟨∑ j ∈ range k, (if h : j < k then e j h else 0) * f j, ?_, ?_, ?_⟩
  · refine deg_sum fun j hj => ?_
    simp only [hj, dif_pos]
    exact deg_mul (h1 j hj) (hf j hj) (by omega)
  · intro s hs
    rw [eval_finsetSum, sum_eq_single s]
    · simp [hs, h2 s hs s hs]
    · intro b hb hne
      have hb' : b < k := by simpa using hb
      simp only [hb', dif_pos, eval_mul, h2 b hb' s hs]
      simp [Ne.symm hne]
    · intro h
      exact absurd (mem_range.mpr hs) h
  · intro me prev
    rw [eval_finsetSum]
    refine sum_congr rfl fun j hj => ?_
    have hj' : j < k := by simpa using hj
    simp only [hj', dif_pos, eval_mul, h3 j hj' me prev]

/-- n parties, batches of k, points that stay apart, room for products -/
structure Sizes (p n k : ℕ) : Prop where
  kn : k ≤ n
  np : n ≤ p
  room : 2 * k ≤ n + 1

/-- opening a polynomial of degree below n from the messages of all parties -/
lemma opens {p : ℕ} [CharP K p] (n : ℕ) (hp : n ≤ p) (f : K[X]) (hf : f.degree < n) (msg : ℕ → K)
    (h : ∀ i < n, msg i = f.eval (alpha i)) (x : K) : lagr n alpha msg x = f.eval x :=
  lagr_of_poly n alpha msg f (alphas_inj n hp) hf h x

/-- The preparation of a batch: one wire of the multiplication.  Party i sends sum e_j [lambda_j]_i + [a]_i + [o]_i, P1 opens
    lambda + a at every position and answers with a packed sharing of it; the party's share minus [a]_i is a packed
    sharing of lambda, of low enough degree to be multiplied by a sharing of degree k - 1. -/
theorem masked_opening {p : ℕ} [CharP K p] (n k : ℕ) (z : Sizes p n k) (f : ℕ → K[X])
    (hf : ∀ j < k, (f j).degree < ((n - k + 1 : ℕ) : WithBot ℕ)) (a o : K[X]) (ha : a.degree < ((n - k + 1 : ℕ) : WithBot ℕ)) (ho : o.degree < n)
    (o0 : ∀ s < k, o.eval (beta s) = 0) :
    ∃ r : K[X], r.degree < k ∧ (∀ s < k, r.eval (beta s) = (f s).eval (beta s) + a.eval (beta s)) ∧
      ∀ (msg : ℕ → K) (prev : ℕ → ℤ → K), (∀ i < n, msg i = ∑ j ∈ range k, basis k i 0 (prev i) j * (f j).eval (alpha i) + a.eval (alpha i) + o.eval (alpha i)) →
        ∀ x, lagr k beta (fun s => lagr n alpha msg (beta s)) x = r.eval x := by
  obtain ⟨g, g1, g2, g3⟩ := packed_poly (p := p) n k z.kn z.np f hf
  obtain ⟨r, r1, r2, r3⟩ := lagr_exists_poly k beta (fun s => (f s).eval (beta s) + a.eval (beta s)) (betas_inj (p := p) k (le_trans z.kn z.np))
  have hk := z.kn
  refine ⟨r, r1, r2, fun msg prev hm x => ?_⟩
  rw [← r3 x]
  refine lagr_congr k beta beta _ _ x x (fun _ _ => rfl) (fun s hs => ?_) rfl
  by_cases k0 : k = 0
  · omega
  have hg : (g + a + o).degree < n := deg_add (deg_add g1 (deg_le ha (by omega))) ho
  rw [opens (p := p) n z.np (g + a + o) hg msg (fun i hi => by rw [hm i hi, g3 i (prev i), eval_add, eval_add])]
  rw [eval_add, eval_add, g2 s hs, o0 s hs, add_zero]

/-- One batch of multiplications, preparation and online phase, as the contracts describe them.  Party i holds individual
    sharings f of the masks of the left and right inputs and of the outputs, a triple a, b, c with c = a b at every position and
    three sharings of zero; the basis values are the ones it precomputed; every channel is first-in first-out.  Then P1 learns,
    for the gate at position s, (mu_left + lambda_left) (mu_right + lambda_right) - lambda_output: the opened value of
    the output is the product of the clear inputs minus the mask of the output. -/
theorem batch_correct {p : ℕ} [CharP K p] (n k : ℕ) (z : Sizes p n k)
    -- polynomials behind the sharings
    (fL fR fO : ℕ → K[X]) (a b c o1 o2 o3 : K[X])
    (hL : ∀ j < k, (fL j).degree < ((n - k + 1 : ℕ) : WithBot ℕ)) (hR : ∀ j < k, (fR j).degree < ((n - k + 1 : ℕ) : WithBot ℕ))
    (hO : ∀ j < k, (fO j).degree < ((n - k + 1 : ℕ) : WithBot ℕ))
    (ha : a.degree < ((n - k + 1 : ℕ) : WithBot ℕ)) (hb : b.degree < ((n - k + 1 : ℕ) : WithBot ℕ)) (hc : c.degree < n)
    (h1 : o1.degree < n) (h2 : o2.degree < n) (h3 : o3.degree < n)
    (habc : ∀ s < k, c.eval (beta s) = a.eval (beta s) * b.eval (beta s))
    (z1 : ∀ s < k, o1.eval (beta s) = 0) (z2 : ∀ s < k, o2.eval (beta s) = 0) (z3 : ∀ s < k, o3.eval (beta s) = 0)
    -- what party i holds
    (ei ind A B C O1 O2 O3 prev0 : ℕ → ℤ → K) (adL adR adO : ℕ → ℤ → ℤ) (key : ℕ → ℤ)
    (he : ∀ i < n, ∀ j < k, ei i j = basis k i 0 (prev0 i) j)
    (iL : ∀ i < n, ∀ j < k, ind i (adL i j) = (fL j).eval (alpha i)) (iR : ∀ i < n, ∀ j < k, ind i (adR i j) = (fR j).eval (alpha i))
    (iO : ∀ i < n, ∀ j < k, ind i (adO i j) = (fO j).eval (alpha i))
    (iA : ∀ i < n, A i (key i) = a.eval (alpha i)) (iB : ∀ i < n, B i (key i) = b.eval (alpha i)) (iC : ∀ i < n, C i (key i) = c.eval (alpha i))
    (i1 : ∀ i < n, O1 i (key i) = o1.eval (alpha i)) (i2 : ∀ i < n, O2 i (key i) = o2.eval (alpha i)) (i3 : ∀ i < n, O3 i (key i) = o3.eval (alpha i))
    -- preparation: party i to P1, P1 to party i
    (len1 : ℕ → ℤ → ℤ) (old1 : ℕ → ℤ → ℤ → K) (head1 : ℤ → ℤ) (recv1 : ℤ → ℤ → K)
    (w1 : ∀ i : ℕ, i < n → recv1 i (head1 i) = fdSend k (ei i) (ind i) (adL i) (adR i) (key i) (A i) (B i) (O1 i) (O2 i) (len1 i) (old1 i) 0 (len1 i 0))
    (w1' : ∀ i : ℕ, i < n → recv1 i (head1 i + 1) = fdSend k (ei i) (ind i) (adL i) (adR i) (key i) (A i) (B i) (O1 i) (O2 i) (len1 i) (old1 i) 0 (len1 i 0 + 1))
    (len2 : ℤ → ℤ) (old2 : ℤ → ℤ → K) (head2 : ℕ → ℤ → ℤ) (recv2 : ℕ → ℤ → ℤ → K)
    (w2 : ∀ i : ℕ, i < n → recv2 i 0 (head2 i 0) = fdP1 0 n k head1 recv1 len2 old2 i (len2 i))
    (w2' : ∀ i : ℕ, i < n → recv2 i 0 (1 + head2 i 0) = fdP1 0 n k head1 recv1 len2 old2 i (len2 i + 1))
    -- online: P1 to party i, party i to P1
    (mu : ℤ → K) (gL gR : ℤ → ℤ) (len3 : ℤ → ℤ) (old3 : ℤ → ℤ → K) (len4 : ℕ → ℤ → ℤ) (old4 : ℕ → ℤ → ℤ → K)
    (head4 : ℤ → ℤ) (recv4 : ℤ → ℤ → K) (prev : ℤ → K)
    (w4 : ∀ i : ℕ, i < n → recv4 i (head4 i) = partySend
      (p1Sends 0 n k mu gL gR len3 old3 i (len3 i)) (p1Sends 0 n k mu gL gR len3 old3 i (len3 i + 1))
      (fdLamA (key i) (A i) (head2 i) (recv2 i)) (fdLamB (key i) (B i) (head2 i) (recv2 i))
      (fdDelta k (ei i) (ind i) (adO i) (key i) (A i) (B i) (C i) (O3 i) (head2 i) (recv2 i)) (len4 i) (old4 i) 0 (len4 i 0))
    (s : ℕ) (hs : s < k) :
    p1Opens 0 n k prev head4 recv4 s =
      (mu (gL s) + (fL s).eval (beta s)) * (mu (gR s) + (fR s).eval (beta s)) - (fO s).eval (beta s) := by
  have hk := z.kn
  have hr := z.room
  obtain ⟨rl, rl1, rl2, rl3⟩ := masked_opening n k z fL hL a o1 ha h1 z1
  obtain ⟨rr, rr1, rr2, rr3⟩ := masked_opening n k z fR hR b o2 hb h2 z2
  obtain ⟨go, go1, go2, go3⟩ := packed_poly (p := p) n k z.kn z.np fO hO
  obtain ⟨ml, ml1, ml2, ml3⟩ := lagr_exists_poly k beta (fun j => mu (gL j)) (betas_inj (p := p) k (le_trans z.kn z.np))
  obtain ⟨mr, mr1, mr2, mr3⟩ := lagr_exists_poly k beta (fun j => mu (gR j)) (betas_inj (p := p) k (le_trans z.kn z.np))
  have sumf : ∀ (ad : ℕ → ℤ → ℤ) (f : ℕ → K[X]), (∀ i < n, ∀ j < k, ind i (ad i j) = (f j).eval (alpha i)) → ∀ i < n,
      ∑ j ∈ range k, ei i j * ind i (ad i j) = ∑ j ∈ range k, basis k i 0 (prev0 i) j * (f j).eval (alpha i) := by
    intro ad f hf i hi
    refine sum_congr rfl fun j hj => ?_
    have hj' : j < k := by simpa using hj
    rw [he i hi j hj', hf i hi j hj']
  have recvL : ∀ i < n, recv2 i 0 (head2 i 0) = rl.eval (alpha i) := by
    intro i hi
    rw [w2 i hi, fdP1_left n k head1 recv1 len2 old2 i hi]
    refine rl3 _ prev0 (fun i hi => ?_) _
    rw [w1 i hi, fdSend_left, sumf adL fL iL i hi, iA i hi, i1 i hi]
  have recvR : ∀ i < n, recv2 i 0 (1 + head2 i 0) = rr.eval (alpha i) := by
    intro i hi
    rw [w2' i hi, fdP1_right n k head1 recv1 len2 old2 i hi]
    refine rr3 _ prev0 (fun i hi => ?_) _
    rw [w1' i hi, fdSend_right, sumf adR fR iR i hi, iB i hi, i2 i hi]
  have delta : ∀ i < n, fdDelta k (ei i) (ind i) (adO i) (key i) (A i) (B i) (C i) (O3 i) (head2 i) (recv2 i) =
      (rl * rr - a * rr - b * rl + c + o3 - go).eval (alpha i) := by
    intro i hi
    have e : fdDelta_sumK0 k (ei i) (ind i) (adO i) (key i) (A i) (B i) (C i) (O3 i) (head2 i) (recv2 i) = go.eval (alpha i) := by
      rw [← go3 i (prev0 i), ← sumf adO fO iO i hi]
      simp [fdDelta_sumK0]
    unfold fdDelta
    rw [e]
    simp only [recvL i hi, recvR i hi, iA i hi, iB i hi, iC i hi, i3 i hi, eval_add, eval_sub, eval_mul]
    ring
  have k1 : k + (n - k + 1) ≤ n + 1 := by omega
  have dlow : ∀ {q : K[X]}, q.degree < ((n - k + 1 : ℕ) : WithBot ℕ) → ∀ {r : K[X]}, r.degree < k → (q * r).degree < n :=
    fun hq _ hr' => deg_mul hq hr' (by omega)
  have dk : ∀ {q r : K[X]}, q.degree < k → r.degree < k → (q * r).degree < n := fun hq hr' => deg_mul hq hr' (by omega)
  have lamdeg : ∀ {q r : K[X]}, q.degree < k → r.degree < ((n - k + 1 : ℕ) : WithBot ℕ) → (q - r).degree < ((n - k + 1 : ℕ) : WithBot ℕ) :=
    fun hq hr' => deg_sub (deg_le hq (by omega)) hr'
  have hd : (ml * mr + ml * (rr - b) + mr * (rl - a) + (rl * rr - a * rr - b * rl + c + o3 - go)).degree < n := by
    refine deg_add (deg_add (deg_add (dk ml1 mr1) ?_) ?_) ?_
    · rw [mul_comm]; exact dlow (lamdeg rr1 hb) ml1
    · rw [mul_comm]; exact dlow (lamdeg rl1 ha) mr1
    · exact deg_sub (deg_add (deg_add (deg_sub (deg_sub (dk rl1 rr1) (dlow ha rr1)) (dlow hb rl1)) hc) h3) go1
  rw [p1Opens_lagr n k prev head4 recv4 s hs, opens (p := p) n z.np _ hd _ (fun i hi => ?_)]
  · have l2 := ml2 s hs
    have r2 := mr2 s hs
    simp only [eval_add, eval_sub, eval_mul, l2, r2, rl2 s hs, rr2 s hs, go2 s hs, habc s hs, z3 s hs]
    ring
  · show recv4 i (head4 i) = _
    rw [w4 i hi, partySend_eq, p1Sends_left n k mu gL gR len3 old3 i hi, p1Sends_right n k mu gL gR len3 old3 i hi, delta i hi, ml3, mr3]
    unfold fdLamA fdLamB
    rw [recvL i hi, recvR i hi, iA i hi, iB i hi]
    simp only [eval_add, eval_sub, eval_mul]
    ring

/-- The mask of an input or output batch, for its owner: every party sends sum e_j [lambda_j]_i + [o]_i, the owner opens
    lambda at every position. -/
theorem mask_opening {p : ℕ} [CharP K p] (n k : ℕ) (z : Sizes p n k) (f : ℕ → K[X])
    (hf : ∀ j < k, (f j).degree < ((n - k + 1 : ℕ) : WithBot ℕ)) (o : K[X]) (ho : o.degree < n) (o0 : ∀ s < k, o.eval (beta s) = 0)
    (ei ind O prev0 : ℕ → ℤ → K) (ad : ℕ → ℤ → ℤ) (key : ℕ → ℤ)
    (he : ∀ i < n, ∀ j < k, ei i j = basis k i 0 (prev0 i) j)
    (hi : ∀ i < n, ∀ j < k, ind i (ad i j) = (f j).eval (alpha i)) (hO : ∀ i < n, O i (key i) = o.eval (alpha i))
    (msg : ℕ → K) (hm : ∀ i < n, msg i = ∑ j ∈ range k, ei i j * ind i (ad i j) + O i (key i)) (s : ℕ) (hs : s < k) :
    lagr n alpha msg (beta s) = (f s).eval (beta s) := by
  obtain ⟨g, g1, g2, g3⟩ := packed_poly (p := p) n k z.kn z.np f hf
  rw [opens (p := p) n z.np (g + o) (deg_add g1 ho) msg (fun i hi' => ?_), eval_add, g2 s hs, o0 s hs, add_zero]
  rw [hm i hi', eval_add, ← g3 i (prev0 i), hO i hi']
  congr 1
  refine sum_congr rfl fun j hj => ?_
  have hj' : j < k := by simpa using hj
  rw [he i hi' j hj', hi i hi' j hj']

/-- the owner of an input batch learns the masks of its gates -/
theorem input_mask_correct {p : ℕ} [CharP K p] (n k : ℕ) (z : Sizes p n k) (f : ℕ → K[X])
    (hf : ∀ j < k, (f j).degree < ((n - k + 1 : ℕ) : WithBot ℕ)) (o : K[X]) (ho : o.degree < n) (o0 : ∀ s < k, o.eval (beta s) = 0)
    (ei ind O prev0 : ℕ → ℤ → K) (ad : ℕ → ℤ → ℤ) (key : ℕ → ℤ)
    (he : ∀ i < n, ∀ j < k, ei i j = basis k i 0 (prev0 i) j)
    (hi : ∀ i < n, ∀ j < k, ind i (ad i j) = (f j).eval (alpha i)) (hO : ∀ i < n, O i (key i) = o.eval (alpha i))
    (own : ℤ) (len : ℕ → ℤ → ℤ) (old : ℕ → ℤ → ℤ → K) (head : ℤ → ℤ) (recv : ℤ → ℤ → K) (prev : ℤ → K)
    (w : ∀ i : ℕ, i < n → recv i (head i) = inSend k (ei i) (ind i) (ad i) own (key i) (O i) (len i) (old i) own (len i own))
    (s : ℕ) (hs : s < k) : inMask k own n own prev head recv s = (f s).eval (beta s) := by
  rw [inMask_lagr n k own prev head recv s hs]
  exact mask_opening n k z f hf o ho o0 ei ind O prev0 ad key he hi hO _ (fun i hi' => by rw [w i hi', inSend_eq]) s hs

/-- the owner of an output batch learns the masks of its gates -/
theorem output_mask_correct {p : ℕ} [CharP K p] (n k : ℕ) (z : Sizes p n k) (f : ℕ → K[X])
    (hf : ∀ j < k, (f j).degree < ((n - k + 1 : ℕ) : WithBot ℕ)) (o : K[X]) (ho : o.degree < n) (o0 : ∀ s < k, o.eval (beta s) = 0)
    (ei ind O prev0 : ℕ → ℤ → K) (ad : ℕ → ℤ → ℤ) (key : ℕ → ℤ)
    (he : ∀ i < n, ∀ j < k, ei i j = basis k i 0 (prev0 i) j)
    (hi : ∀ i < n, ∀ j < k, ind i (ad i j) = (f j).eval (alpha i)) (hO : ∀ i < n, O i (key i) = o.eval (alpha i))
    (own : ℤ) (len : ℕ → ℤ → ℤ) (old : ℕ → ℤ → ℤ → K) (head : ℤ → ℤ) (recv : ℤ → ℤ → K) (prev : ℤ → K)
    (w : ∀ i : ℕ, i < n → recv i (head i) = outSend k (ei i) (ind i) (ad i) own (key i) (O i) (len i) (old i) own (len i own))
    (s : ℕ) (hs : s < k) : outMask k own n own prev head recv s = (f s).eval (beta s) := by
  rw [outMask_lagr n k own prev head recv s hs]
  exact mask_opening n k z f hf o ho o0 ei ind O prev0 ad key he hi hO _ (fun i hi' => by rw [w i hi', outSend_eq]) s hs

/-- The same batch with dummy correlations: every party computes its packed shares from masks that all parties know. -/
theorem batch_correct_dummy {p : ℕ} [CharP K p] (n k : ℕ) (z : Sizes p n k) (lamL lamR lamO : ℕ → K)
    (lam : ℕ → ℤ → K) (adL adR ad : ℕ → ℤ → ℤ)
    (iL : ∀ i < n, ∀ j < k, lam i (adL i j) = lamL j) (iR : ∀ i < n, ∀ j < k, lam i (adR i j) = lamR j) (iO : ∀ i < n, ∀ j < k, lam i (ad i j) = lamO j)
    (mu : ℤ → K) (gL gR : ℤ → ℤ) (len3 : ℤ → ℤ) (old3 : ℤ → ℤ → K) (len4 : ℕ → ℤ → ℤ) (old4 : ℕ → ℤ → ℤ → K)
    (head4 : ℤ → ℤ) (recv4 : ℤ → ℤ → K) (prev : ℤ → K)
    (w4 : ∀ i : ℕ, i < n → recv4 i (head4 i) = partySend
      (p1Sends 0 n k mu gL gR len3 old3 i (len3 i)) (p1Sends 0 n k mu gL gR len3 old3 i (len3 i + 1))
      (duA i k (lam i) (adL i)) (duB i k (lam i) (adR i)) (duDelta i k (lam i) (adL i) (adR i) (ad i)) (len4 i) (old4 i) 0 (len4 i 0))
    (s : ℕ) (hs : s < k) :
    p1Opens 0 n k prev head4 recv4 s = (mu (gL s) + lamL s) * (mu (gR s) + lamR s) - lamO s := by
  have hr := z.room
  have hk := z.kn
  have hb := betas_inj (K := K) (p := p) k (le_trans z.kn z.np)
  obtain ⟨ml, ml1, ml2, ml3⟩ := lagr_exists_poly k beta (fun j => mu (gL j)) hb
  obtain ⟨mr, mr1, mr2, mr3⟩ := lagr_exists_poly k beta (fun j => mu (gR j)) hb
  obtain ⟨la, la1, la2, la3⟩ := lagr_exists_poly k beta lamL hb
  obtain ⟨lb, lb1, lb2, lb3⟩ := lagr_exists_poly k beta lamR hb
  obtain ⟨lc, lc1, lc2, lc3⟩ := lagr_exists_poly k beta (fun j => lamL j * lamR j) hb
  obtain ⟨lo, lo1, lo2, lo3⟩ := lagr_exists_poly k beta lamO hb
  have dk : ∀ {q r : K[X]}, q.degree < k → r.degree < k → (q * r).degree < n := fun hq hr' => deg_mul hq hr' (by omega)
  have hd : (ml * mr + ml * lb + mr * la + (lc - lo)).degree < n :=
    deg_add (deg_add (deg_add (dk ml1 mr1) (dk ml1 lb1)) (dk mr1 la1)) (deg_sub (deg_le lc1 hk) (deg_le lo1 hk))
  rw [p1Opens_lagr n k prev head4 recv4 s hs, opens (p := p) n z.np _ hd _ (fun i hi => ?_)]
  · have l2 := ml2 s hs
    have r2 := mr2 s hs
    simp only [eval_add, eval_sub, eval_mul, l2, r2, la2 s hs, lb2 s hs, lc2 s hs, lo2 s hs]
    ring
  · show recv4 i (head4 i) = _
    have eA : duA i k (lam i) (adL i) = la.eval (alpha i) := by
      rw [duA_lagr, ← la3]
      exact lagr_congr k beta beta _ _ _ _ (fun _ _ => rfl) (fun j hj => iL i hi j hj) rfl
    have eB : duB i k (lam i) (adR i) = lb.eval (alpha i) := by
      rw [duB_lagr, ← lb3]
      exact lagr_congr k beta beta _ _ _ _ (fun _ _ => rfl) (fun j hj => iR i hi j hj) rfl
    have eD : duDelta i k (lam i) (adL i) (adR i) (ad i) = lc.eval (alpha i) - lo.eval (alpha i) := by
      rw [duDelta_lagr, ← lc3, ← lo3]
      congr 1
      · exact lagr_congr k beta beta _ _ _ _ (fun _ _ => rfl) (fun j hj => by rw [iL i hi j hj, iR i hi j hj]) rfl
      · exact lagr_congr k beta beta _ _ _ _ (fun _ _ => rfl) (fun j hj => iO i hi j hj) rfl
    rw [w4 i hi, partySend_eq, p1Sends_left n k mu gL gR len3 old3 i hi, p1Sends_right n k mu gL gR len3 old3 i hi, ml3, mr3, eA, eB, eD]
    simp only [eval_add, eval_sub, eval_mul]

end Vcg
