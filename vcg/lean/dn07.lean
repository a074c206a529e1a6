import Mathlib.LinearAlgebra.Lagrange
open scoped Classical
-- INCLUDE interp
-- EXPORTS

/-- the Lagrange basis at 0 over the first n party points -/
def base (n j : ℕ) : K := ∏ m ∈ range n, if m = j then 1 else ((0 : K) - alpha m) * (alpha j - alpha m)⁻¹

/-- the polynomial of degree t that is 1 at 0 and 0 at the points of the last t parties, at the point i + 1 -/
def zer (n t : ℕ) (i : ℕ) : K := ∏ m ∈ range (t + 1), if m = 0 then 1 else (alpha i - ((n : K) - t + m)) * (0 - ((n : K) - t + m))⁻¹

macro "prodn" j:ident : tactic => `(tactic| (
  refine prod_congr rfl fun m _ => ?_
  simp only [ind_eq]
  by_cases h : m = $j
  · subst h
    simp
  · first
    | (simp only [h, if_false]; push_cast; ring1)
    | (simp only [h, if_false, inv_flip]; push_cast; ring1)))

macro "based" j:ident : tactic => `(tactic| (
  unfold base alpha
  prodn $j))

lemma mul_swap {a a' y : K} (h : a = a') : a * y = y * a' := by rw [h, mul_comm]
lemma mul_same {a a' y : K} (h : a = a') : y * a = y * a' := by rw [h]

theorem toNat1 (t : ℕ) : ((1 : ℤ) + (t : ℤ)).toNat = t + 1 := by omega

section
variable (n t : ℕ) (l : ℤ) (len : ℤ → ℤ) (head : ℤ → ℤ) (recv : ℤ → ℤ → K) (pend front : ℤ) (last : ℤ → ℤ → K) (outn : ℤ) (out : ℤ → ℤ → K) (x : ℤ) (i : ℤ)

theorem sum0 : p1Opens_sumK0 0 n t l len head recv pend front last outn out (outn + x) i = ∑ j ∈ range (t + 1), recv j (head j + x) * base n j := by
  unfold p1Opens_sumK0
  rw [toNat1]
  refine sum_congr rfl fun j _ => ?_
  have e : outn + x + (-1 : ℤ) * outn + head j = head j + x := by ring
  rw [e]
  congr 1
  based j

theorem sum2 : p1Opens_sumK2 0 n t l len head recv pend front last outn out (outn + x) i = ∑ j ∈ range (t + 1), last (front + x) (j - t - 1) * base n j := by
  unfold p1Opens_sumK2
  rw [toNat1]
  refine sum_congr rfl fun j _ => ?_
  have e : outn + x + front + (-1 : ℤ) * outn = front + x := by ring
  have e' : (-1 : ℤ) + (-1 : ℤ) * (t : ℤ) + (j : ℤ) = j - t - 1 := by ring
  rw [e, e', mul_comm]
  congr 1
  based j

theorem sum3 : p1Opens_sumK3 0 n t l len head recv pend front last outn out (outn + x) i = ∑ j ∈ range n, last (front + x) (j - t - 1) * base n j := by
  unfold p1Opens_sumK3
  rw [Int.toNat_natCast]
  refine sum_congr rfl fun j _ => ?_
  have e : outn + x + front + (-1 : ℤ) * outn = front + x := by ring
  have e' : (-1 : ℤ) + (-1 : ℤ) * (t : ℤ) + (j : ℤ) = j - t - 1 := by ring
  rw [e, e', mul_comm]
  congr 1
  based j
end

theorem opened_split (n t : ℕ) (h : t + 1 ≤ n) (f g : ℕ → K) :
    ∑ j ∈ range (t + 1), f j + ∑ j ∈ range n, g j - ∑ j ∈ range (t + 1), g j = ∑ j ∈ range n, if j ≤ t then f j else g j := by
  obtain ⟨d, rfl⟩ := Nat.exists_eq_add_of_le h
  have a : ∑ j ∈ range (t + 1), (if j ≤ t then f j else g j) = ∑ j ∈ range (t + 1), f j :=
    sum_congr rfl fun j hj => if_pos (by have := mem_range.mp hj; omega)
  have b : ∑ j ∈ range d, (if t + 1 + j ≤ t then f (t + 1 + j) else g (t + 1 + j)) = ∑ j ∈ range d, g (t + 1 + j) :=
    sum_congr rfl fun j _ => if_neg (by omega)
  rw [sum_range_add g (t + 1) d, sum_range_add _ (t + 1) d, a, b]
  ring

theorem p1_opens (n t : ℕ) (l : ℤ) (len : ℤ → ℤ) (head : ℤ → ℤ) (recv : ℤ → ℤ → K) (pend front : ℤ) (last : ℤ → ℤ → K) (outn : ℤ) (out : ℤ → ℤ → K)
    (x : ℤ) (i : ℕ) (h : t + 1 ≤ n) (hi : i ≤ t) (h0 : 0 ≤ x) (hx : x < len l) :
    p1Opens 0 n t l len head recv pend front last outn out (outn + x) i =
      zer n t i * lagr n alpha (fun j => if j ≤ t then recv j (head j + x) else last (front + x) (j - t - 1)) 0 := by
  have c1 : (0 : ℤ) ≤ outn + x + (-1 : ℤ) * outn := by omega
  have c2 : ¬ (0 : ℤ) ≤ outn + x + (-1 : ℤ) * len l + (-1 : ℤ) * outn := by omega
  have c3 : ¬ (0 : ℤ) ≤ -1 + (i : ℤ) + (-1 : ℤ) * (t : ℤ) := by omega
  have c4 : ¬ (0 : ℤ) ≤ (t : ℤ) + (-1 : ℤ) * (n : ℤ) := by omega
  have c5 : (0 : ℤ) ≤ (t : ℤ) := by omega
  have c6 : (0 : ℤ) ≤ (i : ℤ) := by omega
  have e : lagr n alpha (fun j => if j ≤ t then recv j (head j + x) else last (front + x) (j - t - 1)) (0 : K) =
      ∑ j ∈ range (t + 1), recv j (head j + x) * base n j + ∑ j ∈ range n, last (front + x) (j - t - 1) * base n j
        - ∑ j ∈ range (t + 1), last (front + x) (j - t - 1) * base n j := by
    rw [opened_split n t h]
    unfold lagr base
    refine sum_congr rfl fun j _ => ?_
    by_cases hj : j ≤ t <;> simp only [hj, if_true, if_false]
  rw [e]
  unfold p1Opens
  rw [sum0, sum2, sum3]
  simp only [c1, c2, c3, c4, c5, c6, if_true, if_false, mul_zero, zero_mul, mul_one, one_mul, add_zero, zero_add, toNat1]
  generalize hz : Finset.prod (M := K) (range (t + 1)) _ = Z
  have hZ : Z = zer n t i := by
    rw [← hz]
    unfold zer alpha
    refine prod_congr rfl fun m _ => ?_
    by_cases hm : m = 0
    · subst hm
      simp
    · have e2 : (0 - ((n : K) - t + m))⁻¹ = -((m : K) - t + n)⁻¹ := by rw [← inv_neg]; congr 1; ring
      have hm' : ¬ ((m : ℤ) = 0) := by exact_mod_cast hm
      rw [e2]
      simp only [hm, hm', if_false]
      push_cast
      ring_nf
  rw [hZ]
  ring

/-- the nodes at which that polynomial is known -/
def nodes (n t : ℕ) (m : ℕ) : K := if m = 0 then 0 else (n : K) - t + m

theorem nodes_inj {p : ℕ} [CharP K p] (n t : ℕ) (ht : t ≤ n) (h : n < p) : Set.InjOn (nodes (K := K) n t) (range (t + 1)) := by
  intro a ha b hb e
  have ha' : a < t + 1 := by simpa using ha
  have hb' : b < t + 1 := by simpa using hb
  have key := cast_inj_of_close (K := K) (p := p) (if a = 0 then 0 else (n : ℤ) - t + a) (if b = 0 then 0 else (n : ℤ) - t + b)
    (by split_ifs <;> rw [abs_lt] <;> constructor <;> omega)
    (by unfold nodes at e; split_ifs at e ⊢ <;> push_cast <;> simpa using e)
  split_ifs at key <;> omega

theorem zer_poly {p : ℕ} [CharP K p] (n t : ℕ) (hn : n = 2 * t + 1) (h : n < p) :
    ∃ f : K[X], f.degree < (t + 1 : ℕ) ∧ f.eval 0 = 1 ∧ (∀ i, f.eval (alpha i) = zer n t i) ∧ ∀ i, t < i → i < n → f.eval (alpha i) = 0 := by
  obtain ⟨f, hd, hy, he⟩ := lagr_exists_poly (t + 1) (nodes (K := K) n t) (fun m => if m = 0 then 1 else 0) (nodes_inj (p := p) n t (by omega) h)
  refine ⟨f, hd, ?_, ?_, ?_⟩
  · have := hy 0 (by omega)
    simpa [nodes] using this
  · intro i
    rw [← he]
    unfold lagr zer
    rw [sum_eq_single 0]
    · simp only [if_true, one_mul]
      refine prod_congr rfl fun m _ => ?_
      by_cases hm : m = 0
      · simp [hm]
      · simp [hm, nodes]
    · intro j _ hj
      simp [hj]
    · simp
  · intro i hi hin
    have := hy (i - t) (by omega)
    have e : nodes (K := K) n t (i - t) = alpha i := by
      have h1 : ¬ (i - t = 0) := by omega
      unfold nodes alpha
      rw [if_neg h1, hn, Nat.cast_sub (by omega)]
      push_cast
      ring
    rw [e] at this
    rw [this, if_neg (by omega)]

section
variable (t : ℕ) (l : ℤ) (len : ℤ → ℤ) (x : ℤ) (h0 : 0 ≤ x) (hx : x < len l)
include h0 hx

theorem send_eq (me : ℕ) (hm : me ≤ t) (dn07 : ℤ → K) (adL adR ad : ℤ → ℤ → ℤ) (key : ℤ → ℤ) (dsh : ℤ → K) (size : ℤ → ℤ) (old : ℤ → ℤ → K) :
    multSend me t l len dn07 adL adR ad key dsh size old 0 (size 0 + x) = dn07 (adL l x) * dn07 (adR l x) - dsh (key (ad l x)) := by
  have c1 : ¬ (0 : ℤ) ≤ -1 + (me : ℤ) + (-1 : ℤ) * (t : ℤ) := by omega
  have c2 : (0 : ℤ) ≤ size 0 + x + (-1 : ℤ) * size 0 := by omega
  have c3 : ¬ (0 : ℤ) ≤ size 0 + x + (-1 : ℤ) * len l + (-1 : ℤ) * size 0 := by omega
  have e : size 0 + x + (-1 : ℤ) * size 0 = x := by ring
  unfold multSend
  simp only [c1, c2, c3, e, h0, if_true, if_false, mul_zero, zero_mul, mul_one, one_mul, add_zero, zero_add]
  ring

theorem p1Sends_eq (i : ℕ) (hi : i ≤ t) (out : ℤ → ℤ → K) (outh : ℤ) (size : ℤ → ℤ) (old : ℤ → ℤ → K) :
    p1Sends 0 t l len out outh size old i (size i + x) = out (outh + x) i := by
  have c1 : ¬ (0 : ℤ) ≤ -1 + (i : ℤ) + (-1 : ℤ) * (t : ℤ) := by omega
  have c2 : (0 : ℤ) ≤ size i + x + (-1 : ℤ) * size i := by omega
  have c3 : ¬ (0 : ℤ) ≤ size i + x + (-1 : ℤ) * len l + (-1 : ℤ) * size i := by omega
  have c4 : (0 : ℤ) ≤ (i : ℤ) := by omega
  have e : size i + x + outh + (-1 : ℤ) * size i = outh + x := by ring
  unfold p1Sends
  simp only [c1, c2, c3, c4, e, if_true, if_false, mul_zero, zero_mul, mul_one, one_mul, add_zero, zero_add]
  ring

theorem gets_eq (me : ℕ) (hm : me ≤ t) (ad : ℤ → ℤ → ℤ) (key : ℤ → ℤ) (shr : ℤ → K) (head : ℤ → ℤ) (recv prev : ℤ → ℤ → K) :
    multGets me t l len ad key shr head recv prev l x = recv 0 (head 0 + x) + shr (key (ad l x)) := by
  have c1 : ¬ (0 : ℤ) ≤ -1 + (me : ℤ) + (-1 : ℤ) * (t : ℤ) := by omega
  have c2 : l + (-1 : ℤ) * l = 0 := by omega
  have c3 : ¬ (0 : ℤ) ≤ x + (-1 : ℤ) * len l := by omega
  have e : x + head 0 = head 0 + x := by ring
  unfold multGets
  simp only [c1, c2, c3, e, h0, if_true, if_false, mul_zero, zero_mul, mul_one, one_mul, add_zero, zero_add]
  ring
end

/-- what P1 keeps for product number x of the circuit is what the last t parties sent for it -/
theorem kept_eq (n t : ℕ) (len : ℤ → ℤ) (layers : ℕ) (head : ℤ → ℤ) (recv : ℤ → ℤ → K) (pend : ℤ) (last : ℤ → ℤ → K) (x : ℤ) (j : ℕ)
    (h0 : 0 ≤ x) (hx : x < ∑ m ∈ range layers, len m) (hj : t < j) (hn : j < n) :
    fdKeep 0 n t len layers layers head recv pend last (pend + x) (j - t - 1) = recv j (head j + x) := by
  have c1 : (0 : ℤ) ≤ pend + x + (-1 : ℤ) * pend := by omega
  have c2 : (0 : ℤ) ≤ (j : ℤ) - t - 1 := by omega
  have c3 : ¬ (0 : ℤ) ≤ (j : ℤ) + (-1 : ℤ) * (n : ℤ) := by omega
  have es : fdKeep_sumZ0 0 n t len layers layers head recv pend last (pend + x) (j - t - 1) = ∑ m ∈ range layers, len m := by
    unfold fdKeep_sumZ0
    rw [Int.toNat_natCast]
  have c4 : ¬ (0 : ℤ) ≤ pend + x + (-1 : ℤ) * pend + (-1 : ℤ) * ∑ m ∈ range layers, len m := by omega
  have e : pend + x + (-1 : ℤ) * pend + head j = head j + x := by ring
  have e2 : (1 : ℤ) + ((j : ℤ) - t - 1) + t = j := by ring
  unfold fdKeep
  simp only [es, c1, c2, c3, c4, e2, e, if_true, if_false, mul_zero, zero_mul, mul_one, one_mul, add_zero, zero_add]
  ring

theorem low_degree {t : ℕ} {A : K[X]} (h : A.degree < (t + 1 : ℕ)) : A.degree ≤ (t : ℕ) := by
  rw [degree_le_iff_coeff_zero]
  rw [degree_lt_iff_coeff_zero] at h
  intro m hm
  have : t < m := by exact_mod_cast hm
  exact h m (by omega)

/-- A multiplication of the baseline.  Party j holds the value A at its point of the left operand, B of the right one, R and R2
of the double sharing; the first t + 1 parties send what MultPartiesSendP1 says, P1 has kept the same quantity from each of the
last t parties, opens, shares and sends, and the first t + 1 parties store what MultPartiesReceive says.  The shares of the
product (the last t parties took R) are the values of a polynomial of degree at most t which is the product at 0. -/
theorem product {p : ℕ} [CharP K p] (n t : ℕ) (hn : n = 2 * t + 1) (hp : n < p) (l x : ℤ) (len : ℤ → ℤ) (h0 : 0 ≤ x) (hx : x < len l)
    (A B R R2 : K[X]) (hA : A.degree < (t + 1 : ℕ)) (hB : B.degree < (t + 1 : ℕ)) (hR : R.degree < (t + 1 : ℕ)) (hR2 : R2.degree < n) (h00 : R.eval 0 = R2.eval 0)
    (adL adR ad : ℤ → ℤ → ℤ) (dn07 : ℕ → ℤ → K) (key : ℕ → ℤ → ℤ) (shr dsh : ℕ → ℤ → K) (size : ℕ → ℤ → ℤ) (old : ℕ → ℤ → ℤ → K)
    (hL : ∀ j ≤ t, dn07 j (adL l x) = A.eval (alpha j)) (hRt : ∀ j ≤ t, dn07 j (adR l x) = B.eval (alpha j))
    (hs : ∀ j ≤ t, shr j (key j (ad l x)) = R.eval (alpha j)) (hd : ∀ j ≤ t, dsh j (key j (ad l x)) = R2.eval (alpha j))
    (head : ℤ → ℤ) (recv : ℤ → ℤ → K) (pend front : ℤ) (last : ℤ → ℤ → K) (outn : ℤ) (out out' : ℤ → ℤ → K)
    (hrecv : ∀ j : ℕ, j ≤ t → recv j (head j + x) = multSend j t l len (dn07 j) adL adR ad (key j) (dsh j) (size j) (old j) 0 (size j 0 + x))
    (hlast : ∀ j : ℕ, t < j → j < n → last (front + x) (j - t - 1) = A.eval (alpha j) * B.eval (alpha j) - R2.eval (alpha j))
    (hout : ∀ i : ℕ, i ≤ t → out' (outn + x) i = p1Opens 0 n t l len head recv pend front last outn out (outn + x) i)
    (size1 : ℤ → ℤ) (old1 : ℤ → ℤ → K) (head' : ℕ → ℤ → ℤ) (recv' prev : ℕ → ℤ → ℤ → K)
    (hback : ∀ i : ℕ, i ≤ t → recv' i 0 (head' i 0 + x) = p1Sends 0 t l len out' outn size1 old1 i (size1 i + x)) :
    ∃ C : K[X], C.degree < (t + 1 : ℕ) ∧ C.eval 0 = A.eval 0 * B.eval 0 ∧
      (∀ i : ℕ, i ≤ t → multGets i t l len ad (key i) (shr i) (head' i) (recv' i) (prev i) l x = C.eval (alpha i)) ∧
      ∀ i : ℕ, t < i → i < n → R.eval (alpha i) = C.eval (alpha i) := by
  obtain ⟨Z, hZd, hZ0, hZ, hZl⟩ := zer_poly (K := K) (p := p) n t hn hp
  have open0 : lagr n alpha (fun j => if j ≤ t then recv j (head j + x) else last (front + x) (j - t - 1)) (0 : K) = (A * B - R2).eval 0 := by
    refine lagr_of_poly n alpha _ _ (alphas_inj (p := p) n (le_of_lt hp)) ?_ ?_ 0
    · refine lt_of_le_of_lt (degree_sub_le _ _) (max_lt ?_ hR2)
      have dA := low_degree hA
      have dB := low_degree hB
      refine lt_of_le_of_lt (degree_mul_le _ _) (lt_of_le_of_lt (add_le_add dA dB) ?_)
      rw [hn]
      exact_mod_cast (by omega : t + t < 2 * t + 1)
    · intro j hj
      by_cases hjt : j ≤ t
      · simp only [hjt, if_true]
        rw [hrecv j hjt, send_eq t l len x h0 hx j hjt, hL j hjt, hRt j hjt, hd j hjt]
        simp
      · simp only [hjt, if_false]
        rw [hlast j (by omega) hj]
        simp
  refine ⟨C ((A * B - R2).eval 0) * Z + R, ?_, ?_, ?_, ?_⟩
  · refine lt_of_le_of_lt (degree_add_le _ _) (max_lt ?_ hR)
    rw [← smul_eq_C_mul]
    exact lt_of_le_of_lt (degree_smul_le _ _) hZd
  · simp [hZ0, h00]
  · intro i hi
    rw [gets_eq t l len x h0 hx i hi, hback i hi, p1Sends_eq t l len x h0 hx i hi, hout i hi,
      p1_opens n t l len head recv pend front last outn out x i (by omega) hi h0 hx, open0, hs i hi, eval_add, eval_mul, eval_C, hZ i]
    ring
  · intro i hi hin
    rw [eval_add, eval_mul, hZl i hi hin, mul_zero, zero_add]

section
variable (t : ℕ) (c x : ℤ) (ilen : ℤ → ℤ) (h0 : 0 ≤ x) (hx : x < ilen c)
include h0 hx

theorem inMask_eq (me clients : ℕ) (hm : me ≤ t) (hc0 : 0 ≤ c) (hc : c < clients) (ad : ℤ → ℤ → ℤ) (key : ℤ → ℤ) (rsh : ℤ → K) (size : ℤ → ℤ) (old : ℤ → ℤ → K) :
    inMask me t clients ilen ad key rsh size old c (size c + x) = rsh (key (ad c x)) := by
  have c1 : ¬ (0 : ℤ) ≤ -1 + (me : ℤ) + (-1 : ℤ) * (t : ℤ) := by omega
  have c2 : (0 : ℤ) ≤ size c + x + (-1 : ℤ) * size c := by omega
  have c3 : ¬ (0 : ℤ) ≤ size c + x + (-1 : ℤ) * size c + (-1 : ℤ) * ilen c := by omega
  have c4 : ¬ (0 : ℤ) ≤ c + (-1 : ℤ) * (clients : ℤ) := by omega
  have c7 : ¬ (0 : ℤ) ≤ x + (-1 : ℤ) * ilen c := by omega
  have e : size c + x + (-1 : ℤ) * size c = x := by ring
  unfold inMask
  simp only [c1, c2, c3, c7, h0, c4, hc0, e, if_true, if_false, mul_zero, zero_mul, mul_one, one_mul, add_zero, zero_add]
  first | done | ring1 | ring_nf

theorem inGets_eq (me clients : ℕ) (hm : me ≤ t) (hc0 : 0 ≤ c) (hc : c < clients) (ad : ℤ → ℤ → ℤ) (key : ℤ → ℤ) (rsh : ℤ → K) (head : ℤ → ℤ) (recv prev : ℤ → ℤ → K) :
    inGets me t clients ilen ad key rsh head recv prev c x = recv c (head c + x) + rsh (key (ad c x)) := by
  have c1 : ¬ (0 : ℤ) ≤ -1 + (me : ℤ) + (-1 : ℤ) * (t : ℤ) := by omega
  have c3 : ¬ (0 : ℤ) ≤ x + (-1 : ℤ) * ilen c := by omega
  have c4 : ¬ (0 : ℤ) ≤ c + (-1 : ℤ) * (clients : ℤ) := by omega
  have e : x + head c = head c + x := by ring
  unfold inGets
  simp only [c1, c3, c4, hc0, e, h0, if_true, if_false, mul_zero, zero_mul, mul_one, one_mul, add_zero, zero_add]
  first | done | ring1 | ring_nf

theorem inShare_eq (n : ℕ) (ht : t + 1 ≤ n) (i : ℕ) (hi : i ≤ t) (value : ℤ → ℤ → K) (head : ℤ → ℤ) (recv : ℤ → ℤ → K) (size : ℤ → ℤ) (old : ℤ → ℤ → K) :
    inShare c n t ilen value head recv size old i (size i + x) =
      zer n t i * (value c x - lagr (t + 1) alpha (fun j => recv j (head j + x)) 0) := by
  have c1 : ¬ (0 : ℤ) ≤ -1 + (i : ℤ) + (-1 : ℤ) * (t : ℤ) := by omega
  have c2 : (0 : ℤ) ≤ size i + x + (-1 : ℤ) * size i := by omega
  have c3 : ¬ (0 : ℤ) ≤ size i + x + (-1 : ℤ) * size i + (-1 : ℤ) * ilen c := by omega
  have c5 : (0 : ℤ) ≤ (t : ℤ) := by omega
  have c6 : (0 : ℤ) ≤ (i : ℤ) := by omega
  have c7 : ¬ (0 : ℤ) ≤ x + (-1 : ℤ) * ilen c := by omega
  have e : size i + x + (-1 : ℤ) * size i = x := by ring
  have es : inShare_sumK0 c n t ilen value head recv size old i (size i + x) = lagr (t + 1) alpha (fun j => recv j (head j + x)) 0 := by
    unfold inShare_sumK0 lagr
    rw [toNat1]
    refine sum_congr rfl fun j _ => ?_
    have e' : size i + x + (-1 : ℤ) * size i + head j = head j + x := by ring
    rw [e']
    congr 1
    unfold alpha
    prodn j
  unfold inShare
  rw [es]
  simp only [c1, c2, c3, c7, h0, c5, c6, e, if_true, if_false, mul_zero, zero_mul, mul_one, one_mul, add_zero, zero_add, toNat1]
  generalize hz : Finset.prod (M := K) (range (t + 1)) _ = Z
  have hZ : Z = zer n t i := by
    rw [← hz]
    unfold zer alpha
    refine prod_congr rfl fun m _ => ?_
    by_cases hm : m = 0
    · subst hm
      simp
    · have e2 : (0 - ((n : K) - t + m))⁻¹ = -((m : K) - t + n)⁻¹ := by rw [← inv_neg]; congr 1; ring
      have hm' : ¬ ((m : ℤ) = 0) := by exact_mod_cast hm
      rw [e2]
      simp only [hm, hm', if_false]
      push_cast
      ring_nf
  rw [hZ]
  first | done | ring1 | ring_nf
end

/-- An input of the baseline.  The first t + 1 parties send their shares of the mask R to the owner, who opens it and shares input
minus mask; what the first t + 1 parties store and what the last t took from the mask is a sharing of degree at most t of the input. -/
theorem input {p : ℕ} [CharP K p] (n t clients : ℕ) (hn : n = 2 * t + 1) (hp : n < p) (c x : ℤ) (ilen : ℤ → ℤ) (h0 : 0 ≤ x) (hx : x < ilen c)
    (hc0 : 0 ≤ c) (hc : c < clients) (R : K[X]) (hR : R.degree < (t + 1 : ℕ))
    (ad : ℤ → ℤ → ℤ) (key : ℕ → ℤ → ℤ) (rsh : ℕ → ℤ → K) (size : ℕ → ℤ → ℤ) (old : ℕ → ℤ → ℤ → K)
    (hs : ∀ j ≤ t, rsh j (key j (ad c x)) = R.eval (alpha j))
    (value : ℤ → ℤ → K) (head : ℤ → ℤ) (recv : ℤ → ℤ → K) (size1 : ℤ → ℤ) (old1 : ℤ → ℤ → K)
    (hrecv : ∀ j : ℕ, j ≤ t → recv j (head j + x) = inMask j t clients ilen ad (key j) (rsh j) (size j) (old j) c (size j c + x))
    (head' : ℕ → ℤ → ℤ) (recv' prev : ℕ → ℤ → ℤ → K)
    (hback : ∀ i : ℕ, i ≤ t → recv' i c (head' i c + x) = inShare c n t ilen value head recv size1 old1 i (size1 i + x)) :
    ∃ C : K[X], C.degree < (t + 1 : ℕ) ∧ C.eval 0 = value c x ∧
      (∀ i : ℕ, i ≤ t → inGets i t clients ilen ad (key i) (rsh i) (head' i) (recv' i) (prev i) c x = C.eval (alpha i)) ∧
      ∀ i : ℕ, t < i → i < n → R.eval (alpha i) = C.eval (alpha i) := by
  obtain ⟨Z, hZd, hZ0, hZ, hZl⟩ := zer_poly (K := K) (p := p) n t hn hp
  have open0 : lagr (t + 1) alpha (fun j => recv j (head j + x)) (0 : K) = R.eval 0 := by
    refine lagr_of_poly (t + 1) alpha _ _ (alphas_inj (p := p) (t + 1) (by omega)) hR ?_ 0
    intro j hj
    rw [hrecv j (by omega), inMask_eq t c x ilen h0 hx j clients (by omega) hc0 hc, hs j (by omega)]
  refine ⟨C (value c x - R.eval 0) * Z + R, ?_, ?_, ?_, ?_⟩
  · refine lt_of_le_of_lt (degree_add_le _ _) (max_lt ?_ hR)
    rw [← smul_eq_C_mul]
    exact lt_of_le_of_lt (degree_smul_le _ _) hZd
  · simp [hZ0]
  · intro i hi
    rw [inGets_eq t c x ilen h0 hx i clients hi hc0 hc, hback i hi, inShare_eq t c x ilen h0 hx n (by omega) i hi, open0, hs i hi,
      eval_add, eval_mul, eval_C, hZ i]
    ring
  · intro i hi hin
    rw [eval_add, eval_mul, hZl i hi hin, mul_zero, zero_add]

/-- a combination of sharings -/
theorem combine_degree (n d : ℕ) (w : ℕ → K) (f : ℕ → K[X]) (h : ∀ q < n, (f q).degree < (d : ℕ)) : (∑ q ∈ range n, C (w q) * f q).degree < (d : ℕ) := by
  rw [degree_lt_iff_coeff_zero]
  intro m hm
  rw [finset_sum_coeff]
  refine sum_eq_zero fun q hq => ?_
  have := (degree_lt_iff_coeff_zero _ _).mp (h q (by simpa using hq)) m hm
  rw [coeff_C_mul, this, mul_zero]

/-- The preparation of the baseline.  If every party q dealt, as message number b of each kind, the values of polynomials of degree at
most t (singles and the first half of a double sharing) and at most 2t (the second half) with the same secret, then entry m of what the
parties keep is a sharing of degree at most t, or a pair of sharings of degrees at most t and 2t of one secret, for all m at once. -/
theorem prepared (n t nm ni : ℕ) (vdm : ℤ → ℤ → K) (m : ℤ) (head : ℕ → ℤ → ℤ) (recv : ℕ → ℤ → ℤ → K)
    (S F G : ℕ → K[X]) (hS : ∀ q < n, (S q).degree < (t + 1 : ℕ)) (hF : ∀ q < n, (F q).degree < (t + 1 : ℕ)) (hG : ∀ q < n, (G q).degree < (2 * t + 1 : ℕ))
    (h00 : ∀ q < n, (F q).eval 0 = (G q).eval 0)
    (rS : ∀ i < n, ∀ q < n, recv i q (m / (1 + t) + head i q) = (S q).eval (alpha i))
    (rF : ∀ i < n, ∀ q < n, recv i q ((t + ni) / (1 + t) + 2 * (m / (1 + t)) + head i q) = (F q).eval (alpha i))
    (rG : ∀ i < n, ∀ q < n, recv i q (1 + (t + ni) / (1 + t) + 2 * (m / (1 + t)) + head i q) = (G q).eval (alpha i)) :
    ∃ R D E : K[X], R.degree < (t + 1 : ℕ) ∧ D.degree < (t + 1 : ℕ) ∧ E.degree < (2 * t + 1 : ℕ) ∧ D.eval 0 = E.eval 0 ∧
      ∀ i < n, single n t nm ni vdm (head i) (recv i) m = R.eval (alpha i) ∧ doubleT n t nm ni vdm (head i) (recv i) m = D.eval (alpha i) ∧
        double2T n t nm ni vdm (head i) (recv i) m = E.eval (alpha i) := by
  refine ⟨∑ q ∈ range n, C (vdm q (m + (-1 : ℤ) * t * (m / (1 + t)) + (-1 : ℤ) * (m / (1 + t)))) * S q,
    ∑ q ∈ range n, C (vdm q (m + (-1 : ℤ) * t * (m / (1 + t)) + (-1 : ℤ) * (m / (1 + t)))) * F q,
    ∑ q ∈ range n, C (vdm q (m + (-1 : ℤ) * t * (m / (1 + t)) + (-1 : ℤ) * (m / (1 + t)))) * G q,
    combine_degree _ _ _ _ hS, combine_degree _ _ _ _ hF, combine_degree _ _ _ _ hG, ?_, ?_⟩
  · rw [eval_finsetSum, eval_finsetSum]
    refine sum_congr rfl fun q hq => ?_
    rw [eval_mul, eval_mul, h00 q (by simpa using hq)]
  · intro i hi
    unfold single doubleT double2T single_sumK0 doubleT_sumK0 double2T_sumK0
    rw [Int.toNat_natCast, eval_finsetSum, eval_finsetSum, eval_finsetSum]
    refine ⟨sum_congr rfl fun q hq => ?_, sum_congr rfl fun q hq => ?_, sum_congr rfl fun q hq => ?_⟩
    · rw [eval_mul, eval_C, rS i hi q (by simpa using hq)]
    · rw [eval_mul, eval_C, rF i hi q (by simpa using hq)]
    · rw [eval_mul, eval_C, rG i hi q (by simpa using hq)]

section
variable (t : ℕ) (c x : ℤ) (olen : ℤ → ℤ) (h0 : 0 ≤ x) (hx : x < olen c)
include h0 hx

theorem outSend_eq (me clients : ℕ) (hm : me ≤ t) (hc0 : 0 ≤ c) (hc : c < clients) (dn07 : ℤ → K) (ad : ℤ → ℤ → ℤ) (size : ℤ → ℤ) (old : ℤ → ℤ → K) :
    outSend me t clients dn07 olen ad size old c (size c + x) = dn07 (ad c x) := by
  have c1 : ¬ (0 : ℤ) ≤ -1 + (me : ℤ) + (-1 : ℤ) * (t : ℤ) := by omega
  have c2 : (0 : ℤ) ≤ size c + x + (-1 : ℤ) * size c := by omega
  have c3 : ¬ (0 : ℤ) ≤ size c + x + (-1 : ℤ) * size c + (-1 : ℤ) * olen c := by omega
  have c4 : ¬ (0 : ℤ) ≤ c + (-1 : ℤ) * (clients : ℤ) := by omega
  have c7 : ¬ (0 : ℤ) ≤ x + (-1 : ℤ) * olen c := by omega
  have e : size c + x + (-1 : ℤ) * size c = x := by ring
  unfold outSend
  simp only [c1, c2, c3, c4, c7, h0, hc0, e, if_true, if_false, mul_zero, zero_mul, mul_one, one_mul, add_zero, zero_add]
  first | done | ring1 | ring_nf

theorem outOpen_eq (turn : ℤ → ℤ) (ad : ℤ → ℤ → ℤ) (ht : turn (ad c x) = x) (head : ℤ → ℤ) (recv : ℤ → ℤ → K) (old : ℤ → K) :
    outOpen c t turn olen ad head recv old (ad c x) = lagr (t + 1) alpha (fun j => recv j (head j + x)) 0 := by
  have es : outOpen_sumK0 c t turn olen ad head recv old (ad c x) = lagr (t + 1) alpha (fun j => recv j (head j + x)) 0 := by
    unfold outOpen_sumK0 lagr
    rw [toNat1]
    refine sum_congr rfl fun j _ => ?_
    have e' : x + head j = head j + x := by ring
    rw [ht]
    try rw [e']
    unfold alpha
    first
    | (refine mul_same ?_; prodn j)
    | (refine mul_swap ?_; prodn j)
  have c1 : (0 : ℤ) ≤ -1 + olen c + (-1 : ℤ) * x := by omega
  have c2 : ad c x + (-1 : ℤ) * ad c x = 0 := by omega
  unfold outOpen
  rw [es]
  simp only [ht, h0, c1, c2, if_true, if_false, mul_zero, zero_mul, mul_one, one_mul, add_zero, zero_add]
  first | done | ring1 | ring_nf
end

/-- the parties' values s are a sharing of v of degree at most t -/
def Sharing (n t : ℕ) (s : ℕ → K) (v : K) : Prop :=
  ∃ C : K[X], C.degree < (t + 1 : ℕ) ∧ C.eval 0 = v ∧ ∀ i < n, s i = C.eval (alpha i)

theorem sharing_add {n t : ℕ} {s s' u : ℕ → K} {v v' : K} (h : Sharing n t s v) (h' : Sharing n t s' v') (hu : ∀ i < n, u i = s i + s' i) :
    Sharing n t u (v + v') := by
  obtain ⟨C, d, z, e⟩ := h
  obtain ⟨C', d', z', e'⟩ := h'
  refine ⟨C + C', lt_of_le_of_lt (degree_add_le _ _) (max_lt d d'), by rw [eval_add, z, z'], fun i hi => ?_⟩
  rw [hu i hi, e i hi, e' i hi, eval_add]

/-- what `input` and `product` conclude is a sharing: the last t parties hold R -/
theorem sharing_parts {n t : ℕ} {s low : ℕ → K} {v : K} {R : K[X]} (h : ∃ C : K[X], C.degree < (t + 1 : ℕ) ∧ C.eval 0 = v ∧
      (∀ i : ℕ, i ≤ t → low i = C.eval (alpha i)) ∧ ∀ i : ℕ, t < i → i < n → R.eval (alpha i) = C.eval (alpha i))
    (h1 : ∀ i ≤ t, s i = low i) (h2 : ∀ i, t < i → i < n → s i = R.eval (alpha i)) : Sharing n t s v := by
  obtain ⟨C, d, z, a, b⟩ := h
  refine ⟨C, d, z, fun i hi => ?_⟩
  by_cases k : i ≤ t
  · rw [h1 i k, a i k]
  · rw [h2 i (by omega) hi, b i (by omega) hi]

/-- An output of the baseline.  The owner of an output whose wire is shared with degree at most t learns the value. -/
theorem output {p : ℕ} [CharP K p] (n t clients : ℕ) (hn : n = 2 * t + 1) (hp : n < p) (c x : ℤ) (olen : ℤ → ℤ) (h0 : 0 ≤ x) (hx : x < olen c)
    (hc0 : 0 ≤ c) (hc : c < clients) (ad : ℤ → ℤ → ℤ) (dn07 : ℕ → ℤ → K) (v : K) (h : Sharing n t (fun i => dn07 i (ad c x)) v)
    (size : ℕ → ℤ → ℤ) (old : ℕ → ℤ → ℤ → K) (turn : ℤ → ℤ) (ht : turn (ad c x) = x) (head : ℤ → ℤ) (recv : ℤ → ℤ → K) (old1 : ℤ → K)
    (hrecv : ∀ j : ℕ, j ≤ t → recv j (head j + x) = outSend j t clients (dn07 j) olen ad (size j) (old j) c (size j c + x)) :
    outOpen c t turn olen ad head recv old1 (ad c x) = v := by
  obtain ⟨C, d, z, e⟩ := h
  rw [outOpen_eq t c x olen h0 hx turn ad ht, ← z]
  refine lagr_of_poly (t + 1) alpha _ _ (alphas_inj (p := p) (t + 1) (by omega)) d ?_ 0
  intro j hj
  rw [hrecv j (by omega), outSend_eq t c x olen h0 hx j clients (by omega) hc0 hc]
  exact e j (by omega)

/-- what a wire is: gates are numbered so that inputs of a gate come before it -/
inductive Kind
  | input | add (l r : ℕ) | mul (l r : ℕ) | out (l : ℕ)

/-- Every wire of every circuit: if inputs are shared as `input` says, multiplications do what `product` says, and additions and outputs
what their contracts say (shares and clear values), then every wire is a sharing of degree at most t of its clear value. -/
theorem circuit (n t : ℕ) (g : ℕ → Kind) (clear : ℤ → K) (share : ℕ → ℤ → K)
    (hi : ∀ w : ℕ, g w = .input → Sharing n t (fun i => share i w) (clear w))
    (ha : ∀ w l r : ℕ, g w = .add l r → l < w ∧ r < w ∧ (∀ i < n, ∃ m, share i w = addGetDn07Share False m (share i) l r) ∧
      ∃ m, clear w = addGetClear False m clear l r)
    (hm : ∀ w l r : ℕ, g w = .mul l r → l < w ∧ r < w ∧ (∀ a b, Sharing n t (fun i => share i l) a → Sharing n t (fun i => share i r) b →
      Sharing n t (fun i => share i w) (a * b)) ∧ ∃ m, clear w = mulGetClear False m clear l r)
    (ho : ∀ w l : ℕ, g w = .out l → l < w ∧ (∀ i < n, ∃ m, share i w = outGetDn07Share False m (share i) l) ∧ ∃ m, clear w = outGetClear False m clear l)
    (w : ℕ) : Sharing n t (fun i => share i w) (clear w) := by
  induction w using Nat.strong_induction_on with
  | _ w ih =>
    cases h : g w with
    | input => exact hi w h
    | add l r =>
      obtain ⟨hl, hr, hs, m, hc⟩ := ha w l r h
      have e : clear w = clear l + clear r := by rw [hc]; simp [addGetClear]
      rw [e]
      refine sharing_add (ih l hl) (ih r hr) fun i hin => ?_
      obtain ⟨m', hm'⟩ := hs i hin
      simp only [hm']
      simp [addGetDn07Share]
    | mul l r =>
      obtain ⟨hl, hr, hs, m, hc⟩ := hm w l r h
      have e : clear w = clear l * clear r := by rw [hc]; simp [mulGetClear]
      rw [e]
      exact hs _ _ (ih l hl) (ih r hr)
    | out l =>
      obtain ⟨hl, hs, m, hc⟩ := ho w l h
      have e : clear w = clear l := by rw [hc]; simp [outGetClear]
      obtain ⟨C, d, z, e'⟩ := ih l hl
      refine ⟨C, d, by rw [z, e], fun i hin => ?_⟩
      obtain ⟨m', hm'⟩ := hs i hin
      simp only [hm']
      simp [outGetDn07Share, ← e' i hin]
