import Mathlib.LinearAlgebra.Lagrange
import Mathlib.Data.Nat.Count
import Mathlib.LinearAlgebra.Vandermonde
import Mathlib.LinearAlgebra.Matrix.NonsingularInverse
open scoped Classical
-- INCLUDE interp
-- EXPORTS

/-- what is handed out in the order of events: batches and gates are told apart by their address -/
inductive Ev (K : Type*)
  | mul (b : ℤ) | inp (b : ℤ) | out (b : ℤ) | inGate (g : ℤ) (pad : Prop) | mulGate (g : ℤ) (pad : Prop) | derived (g : ℤ) (v : K)

/-- the counters and the maps of a Correlator -/
structure St (K : Type*) where
  cM : ℤ
  cIO : ℤ
  cS : ℤ
  A : ℤ → K
  B : ℤ → K
  C : ℤ → K
  O1 : ℤ → K
  O2 : ℤ → K
  O3 : ℤ → K
  In : ℤ → K
  Out : ℤ → K
  Ind : ℤ → K

/-- the prepared lists -/
structure Prep (K : Type*) where
  A : ℤ → K
  B : ℤ → K
  C : ℤ → K
  O1 : ℤ → K
  O2 : ℤ → K
  O3 : ℤ → K
  IO : ℤ → K
  Ind : ℤ → K

noncomputable def step (p : Prep K) (e : Ev K) (s : St K) : St K :=
  match e with
  | .mul b => { s with cM := nextMulA s.cM, A := handMulA b s.A p.A s.cM, B := handMulB b s.B p.B s.cM, C := handMulC b s.C p.C s.cM,
                       O1 := handMulO1 b s.O1 p.O1 s.cM, O2 := handMulO2 b s.O2 p.O2 s.cM, O3 := handMulO3 b s.O3 p.O3 s.cM }
  | .inp b => { s with cIO := nextInput s.cIO, In := handInput b s.In p.IO s.cIO }
  | .out b => { s with cIO := nextOutput s.cIO, Out := handOutput b s.Out p.IO s.cIO }
  | .inGate g pad => { s with cS := nextInputGate pad s.cS, Ind := handInputGate pad g s.Ind p.Ind s.cS }
  | .mulGate g pad => { s with cS := nextMultGate pad s.cS, Ind := handMultGate pad g s.Ind p.Ind s.cS }
  | .derived g v => { s with Ind := fun x => if x = g then v else s.Ind x }

noncomputable def st (p : Prep K) (ev : ℕ → Ev K) (s : St K) : ℕ → St K
  | 0 => s
  | m + 1 => step p (ev m) (st p ev s m)

theorem hand_eq (i key : ℤ) (a b : K) :
    a * (if i + (-1 : ℤ) * key = 0 then (1 : K) else 0) + b + (-1 : K) * b * (if i + (-1 : ℤ) * key = 0 then (1 : K) else 0) = if i = key then a else b := by
  by_cases h : i = key
  · subst h; simp
  · have : ¬ (i + (-1 : ℤ) * key = 0) := by omega
    rw [if_neg this, if_neg h]; ring

theorem st_succ (p : Prep K) (ev : ℕ → Ev K) (s : St K) (m : ℕ) : st p ev s (m + 1) = step p (ev m) (st p ev s m) := rfl

/-- a counter that advances with every use hands out every entry at most once -/
theorem slots (T : ℕ) (use : ℕ → Prop) (ad ctr : ℕ → ℤ) (map : ℕ → ℤ → K) (prep : ℤ → K)
    (hm : ∀ m < T, use m → map (m + 1) (ad m) = prep (ctr m))
    (hf : ∀ i m, use i → i < m → m < T → map (m + 1) (ad i) = map m (ad i))
    (i : ℕ) (hi : i < T) (u : use i) : map T (ad i) = prep (ctr i) := by
  have : ∀ m, i < m → m ≤ T → map m (ad i) = prep (ctr i) := by
    intro m
    induction m with
    | zero => intro h; omega
    | succ m ih =>
      intro h h'
      by_cases e : i = m
      · subst e; exact hm i (by omega) u
      · rw [hf i m u (by omega) (by omega)]; exact ih (by omega) (by omega)
  exact this T hi le_rfl

theorem counts (use : ℕ → Prop) (ctr : ℕ → ℤ) (hc : ∀ m, ctr (m + 1) = ctr m + if use m then 1 else 0) (m : ℕ) :
    ctr m = ctr 0 + Nat.count use m := by
  induction m with
  | zero => simp
  | succ m ih =>
    rw [hc, Nat.count_succ, ih]
    by_cases h : use m <;> simp [h]; ring

theorem apart (use : ℕ → Prop) (ctr : ℕ → ℤ) (hc : ∀ m, ctr (m + 1) = ctr m + if use m then 1 else 0)
    (i j : ℕ) (ui : use i) (uj : use j) (e : ctr i = ctr j) : i = j := by
  rw [counts use ctr hc i, counts use ctr hc j] at e
  exact Nat.count_injective ui uj (by omega)

section
variable (p : Prep K) (ev : ℕ → Ev K) (s : St K) (T : ℕ)

def isMul (e : Ev K) : Prop := ∃ b, e = .mul b
def isIO (e : Ev K) : Prop := ∃ b, e = .inp b ∨ e = .out b
def isSingle (e : Ev K) : Prop := ∃ g, e = .inGate g False ∨ e = .mulGate g False

theorem ctr_mul (m : ℕ) : (st p ev s (m + 1)).cM = (st p ev s m).cM + if isMul (ev m) then 1 else 0 := by
  rw [st_succ]; generalize st p ev s m = x; generalize ev m = e
  cases e <;> simp [step, isMul, nextMulA, add_comm]

theorem ctr_io (m : ℕ) : (st p ev s (m + 1)).cIO = (st p ev s m).cIO + if isIO (ev m) then 1 else 0 := by
  rw [st_succ]; generalize st p ev s m = x; generalize ev m = e
  cases e <;> simp [step, isIO, nextInput, nextOutput, add_comm]

theorem ctr_single (m : ℕ) : (st p ev s (m + 1)).cS = (st p ev s m).cS + if isSingle (ev m) then 1 else 0 := by
  rw [st_succ]; generalize st p ev s m = x; generalize ev m = e
  cases e with
  | inGate g pad => by_cases q : pad <;> simp [step, isSingle, nextInputGate, q, add_comm]
  | mulGate g pad => by_cases q : pad <;> simp [step, isSingle, nextMultGate, q, add_comm]
  | _ => simp [step, isSingle]

/-- Every multiplication batch ends up with the six shares of the prepared entry its turn selects. -/
theorem mul_gets (hd : ∀ i j b, ev i = .mul b → ev j = .mul b → i = j) (i : ℕ) (hi : i < T) (b : ℤ) (h : ev i = .mul b) :
    let c := (st p ev s i).cM
    let f := st p ev s T
    f.A b = p.A c ∧ f.B b = p.B c ∧ f.C b = p.C c ∧ f.O1 b = p.O1 c ∧ f.O2 b = p.O2 c ∧ f.O3 b = p.O3 c := by
  have key : ∀ (get : St K → ℤ → K) (prep : ℤ → K),
      (∀ s b x, get (step p (.mul b) s) x = if x = b then prep s.cM else get s x) →
      (∀ s e, ¬ isMul e → get (step p e s) = get s) → get (st p ev s T) b = prep (st p ev s i).cM := by
    intro get prep h1 h2
    let ad : ℕ → ℤ := fun m => match ev m with | .mul b => b | _ => 0
    have hb : ad i = b := by simp [ad, h]
    have := slots T (fun m => isMul (ev m)) ad (fun m => (st p ev s m).cM) (fun m => get (st p ev s m)) prep ?_ ?_ i hi ⟨b, h⟩
    · rwa [hb] at this
    · rintro m _ ⟨b', hb'⟩
      show get (step p (ev m) (st p ev s m)) (ad m) = _
      simp [ad, hb', h1]
    · rintro i' m ⟨b', hb'⟩ hlt _
      show get (step p (ev m) (st p ev s m)) (ad i') = _
      have : ad i' = b' := by simp [ad, hb']
      by_cases q : isMul (ev m)
      · obtain ⟨b2, hb2⟩ := q
        rw [hb2, h1, if_neg]
        intro e
        rw [← e, this] at hb2
        exact absurd (hd i' m b' hb' hb2) (by omega)
      · rw [h2 _ _ q]
  have same : ∀ (s : St K) (e : Ev K), ¬ isMul e → (step p e s).A = s.A ∧ (step p e s).B = s.B ∧ (step p e s).C = s.C ∧
      (step p e s).O1 = s.O1 ∧ (step p e s).O2 = s.O2 ∧ (step p e s).O3 = s.O3 := by
    intro s e q
    cases e with
    | mul b => exact absurd ⟨b, rfl⟩ q
    | _ => exact ⟨rfl, rfl, rfl, rfl, rfl, rfl⟩
  refine ⟨key St.A p.A ?_ fun s e q => (same s e q).1, key St.B p.B ?_ fun s e q => (same s e q).2.1,
    key St.C p.C ?_ fun s e q => (same s e q).2.2.1, key St.O1 p.O1 ?_ fun s e q => (same s e q).2.2.2.1,
    key St.O2 p.O2 ?_ fun s e q => (same s e q).2.2.2.2.1, key St.O3 p.O3 ?_ fun s e q => (same s e q).2.2.2.2.2⟩
  · intro s b x; rw [← hand_eq]; show handMulA b s.A p.A s.cM x = _; unfold handMulA; ring
  · intro s b x; rw [← hand_eq]; show handMulB b s.B p.B s.cM x = _; unfold handMulB; ring
  · intro s b x; rw [← hand_eq]; show handMulC b s.C p.C s.cM x = _; unfold handMulC; ring
  · intro s b x; rw [← hand_eq]; show handMulO1 b s.O1 p.O1 s.cM x = _; unfold handMulO1; ring
  · intro s b x; rw [← hand_eq]; show handMulO2 b s.O2 p.O2 s.cM x = _; unfold handMulO2; ring
  · intro s b x; rw [← hand_eq]; show handMulO3 b s.O3 p.O3 s.cM x = _; unfold handMulO3; ring

/-- Every input batch ends up with the prepared entry its turn selects, and so does every output batch: they share one counter. -/
theorem input_gets (hd : ∀ i j b, ev i = .inp b → ev j = .inp b → i = j) (i : ℕ) (hi : i < T) (b : ℤ) (h : ev i = .inp b) :
    (st p ev s T).In b = p.IO (st p ev s i).cIO := by
  let ad : ℕ → ℤ := fun m => match ev m with | .inp b => b | _ => 0
  have hb : ad i = b := by simp [ad, h]
  have := slots T (fun m => ∃ b, ev m = .inp b) ad (fun m => (st p ev s m).cIO) (fun m => (st p ev s m).In) p.IO ?_ ?_ i hi ⟨b, h⟩
  · rwa [hb] at this
  · rintro m _ ⟨b', hb'⟩
    show (step p (ev m) (st p ev s m)).In (ad m) = _
    simp [ad, hb', step, handInput]
  · rintro i' m ⟨b', hb'⟩ hlt _
    show (step p (ev m) (st p ev s m)).In (ad i') = (st p ev s m).In (ad i')
    have a : ad i' = b' := by simp [ad, hb']
    cases q : ev m with
    | inp b2 =>
      have ne : ad i' ≠ b2 := by
        intro e
        rw [← e, a] at q
        exact absurd (hd i' m b' hb' q) (by omega)
      have z : ¬ (ad i' + (-1 : ℤ) * b2 = 0) := by omega
      simp only [step, handInput]
      rw [if_neg z]; ring
    | _ => simp [step]

theorem output_gets (hd : ∀ i j b, ev i = .out b → ev j = .out b → i = j) (i : ℕ) (hi : i < T) (b : ℤ) (h : ev i = .out b) :
    (st p ev s T).Out b = p.IO (st p ev s i).cIO := by
  let ad : ℕ → ℤ := fun m => match ev m with | .out b => b | _ => 0
  have hb : ad i = b := by simp [ad, h]
  have := slots T (fun m => ∃ b, ev m = .out b) ad (fun m => (st p ev s m).cIO) (fun m => (st p ev s m).Out) p.IO ?_ ?_ i hi ⟨b, h⟩
  · rwa [hb] at this
  · rintro m _ ⟨b', hb'⟩
    show (step p (ev m) (st p ev s m)).Out (ad m) = _
    simp [ad, hb', step, handOutput]
  · rintro i' m ⟨b', hb'⟩ hlt _
    show (step p (ev m) (st p ev s m)).Out (ad i') = (st p ev s m).Out (ad i')
    have a : ad i' = b' := by simp [ad, hb']
    cases q : ev m with
    | out b2 =>
      have ne : ad i' ≠ b2 := by
        intro e
        rw [← e, a] at q
        exact absurd (hd i' m b' hb' q) (by omega)
      have z : ¬ (ad i' + (-1 : ℤ) * b2 = 0) := by omega
      simp only [step, handOutput]
      rw [if_neg z]; ring
    | _ => simp [step]

/-- Every input or multiplication gate that is not padding ends up with the individual share its turn selects;
    a padding gate takes none. -/
theorem single_gets (hd : ∀ i j g, (ev i = .inGate g False ∨ ev i = .mulGate g False) →
      (ev j = .inGate g False ∨ ev j = .mulGate g False ∨ ∃ v, ev j = .derived g v) → i = j)
    (i : ℕ) (hi : i < T) (g : ℤ) (h : ev i = .inGate g False ∨ ev i = .mulGate g False) :
    (st p ev s T).Ind g = p.Ind (st p ev s i).cS := by
  let ad : ℕ → ℤ := fun m => match ev m with | .inGate g _ => g | .mulGate g _ => g | _ => 0
  have hb : ad i = g := by rcases h with h | h <;> simp [ad, h]
  have := slots T (fun m => isSingle (ev m)) ad (fun m => (st p ev s m).cS) (fun m => (st p ev s m).Ind) p.Ind ?_ ?_ i hi ⟨g, h⟩
  · rwa [hb] at this
  · rintro m _ ⟨b', hb' | hb'⟩
    · show (step p (ev m) (st p ev s m)).Ind (ad m) = _
      simp [ad, hb', step, handInputGate]
    · show (step p (ev m) (st p ev s m)).Ind (ad m) = _
      simp [ad, hb', step, handMultGate]
  · rintro i' m ⟨b', hb'⟩ hlt _
    show (step p (ev m) (st p ev s m)).Ind (ad i') = (st p ev s m).Ind (ad i')
    have a : ad i' = b' := by rcases hb' with hb' | hb' <;> simp [ad, hb']
    rw [a]
    cases q : ev m with
    | inGate b2 pad =>
      by_cases hp : pad
      · simp only [step, handInputGate]
        rw [if_pos hp]
        by_cases e : b' = b2
        · subst e; simp
        · have z : ¬ (b' + (-1 : ℤ) * b2 = 0) := by omega
          rw [if_neg z]; ring
      · have ne : b' ≠ b2 := by
          intro e
          have : pad = False := by simp [hp]
          rw [this, ← e] at q
          exact absurd (hd i' m b' hb' (.inl q)) (by omega)
        have z : ¬ (b' + (-1 : ℤ) * b2 = 0) := by omega
        simp only [step, handInputGate]
        rw [if_neg z]; ring
    | mulGate b2 pad =>
      by_cases hp : pad
      · simp only [step, handMultGate]
        rw [if_pos hp]
        by_cases e : b' = b2
        · subst e; simp
        · have z : ¬ (b' + (-1 : ℤ) * b2 = 0) := by omega
          rw [if_neg z]; ring
      · have ne : b' ≠ b2 := by
          intro e
          have : pad = False := by simp [hp]
          rw [this, ← e] at q
          exact absurd (hd i' m b' hb' (.inr (.inl q))) (by omega)
        have z : ¬ (b' + (-1 : ℤ) * b2 = 0) := by omega
        simp only [step, handMultGate]
        rw [if_neg z]; ring
    | derived b2 v =>
      have ne : b' ≠ b2 := by
        intro e
        rw [← e] at q
        exact absurd (hd i' m b' hb' (.inr (.inr ⟨v, q⟩))) (by omega)
      simp [step, ne]
    | _ => simp [step]

/-- No two events that take a correlation take the same one, and none goes past what was prepared. -/
theorem mul_once (i j : ℕ) (hi : isMul (ev i)) (hj : isMul (ev j)) (e : (st p ev s i).cM = (st p ev s j).cM) : i = j :=
  apart (fun m => isMul (ev m)) (fun m => (st p ev s m).cM) (ctr_mul p ev s) i j hi hj e

theorem io_once (i j : ℕ) (hi : isIO (ev i)) (hj : isIO (ev j)) (e : (st p ev s i).cIO = (st p ev s j).cIO) : i = j :=
  apart (fun m => isIO (ev m)) (fun m => (st p ev s m).cIO) (ctr_io p ev s) i j hi hj e

theorem single_once (i j : ℕ) (hi : isSingle (ev i)) (hj : isSingle (ev j)) (e : (st p ev s i).cS = (st p ev s j).cS) : i = j :=
  apart (fun m => isSingle (ev m)) (fun m => (st p ev s m).cS) (ctr_single p ev s) i j hi hj e

theorem enough (use : ℕ → Prop) (ctr : ℕ → ℤ) (hc : ∀ m, ctr (m + 1) = ctr m + if use m then 1 else 0) (h0 : ctr 0 = 0)
    (T N : ℕ) (hN : Nat.count use T ≤ N) (i : ℕ) (hi : i < T) (u : use i) : 0 ≤ ctr i ∧ ctr i < N := by
  have a := counts use ctr hc i
  have b := Nat.count_strict_mono u hi
  rw [h0] at a
  omega
end

/-! What the hand-outs give out comes from distinct places of the extraction: column and block of a zero sharing. -/

/-- the extracted sharing at column c of block b -/
noncomputable def mix (n : ℤ) (vdm : ℤ → ℤ → K) (head : ℤ → ℤ) (recv : ℤ → ℤ → K) (c b : ℤ) : K :=
  ∑ q ∈ Finset.range n.toNat, vdm q c * recv q (head q + b)

/-- places in different turn are different -/
theorem place (t x y : ℤ) (h : x % (1 + t) = y % (1 + t)) (h' : x / (1 + t) = y / (1 + t)) : x = y := by
  rw [← Int.emod_add_mul_ediv x (1 + t), ← Int.emod_add_mul_ediv y (1 + t), h, h']

noncomputable def at_ (n t : ℤ) (vdm : ℤ → ℤ → K) (head : ℤ → ℤ) (recv : ℤ → ℤ → K) (x : ℤ) : K :=
  mix n vdm head recv (x % (1 + t)) (x / (1 + t))

theorem zeros (n t N : ℤ) (vdm : ℤ → ℤ → K) (head : ℤ → ℤ) (recv : ℤ → ℤ → K) (o1 o2 o3 : ℤ → K) (i : ℤ) (hi : 0 ≤ i) :
    (i < N → zeroO1 n t N vdm head recv o1 i = at_ n t vdm head recv i) ∧
    (i < N → zeroO2 n t N vdm head recv o2 i = at_ n t vdm head recv (N + i)) ∧
    (i < N → zeroO3 n t N vdm head recv o3 i = at_ n t vdm head recv (2 * N + i)) ∧
    zeroIO n t N vdm head recv i = at_ n t vdm head recv (3 * N + i) := by
  refine ⟨fun h => ?_, fun h => ?_, fun h => ?_, ?_⟩
  · have z : ¬ (0 ≤ i + (-1 : ℤ) * N) := by omega
    unfold zeroO1 zeroO1_sumK0 at_ mix
    simp only [hi, z, if_true, if_false, Int.emod_def]
    ring_nf
  · have z : ¬ (0 ≤ i + (-1 : ℤ) * N) := by omega
    unfold zeroO2 zeroO2_sumK0 at_ mix
    simp only [hi, z, if_true, if_false, Int.emod_def]
    ring_nf
  · have z : ¬ (0 ≤ i + (-1 : ℤ) * N) := by omega
    unfold zeroO3 zeroO3_sumK0 at_ mix
    simp only [hi, z, if_true, if_false, Int.emod_def]
    ring_nf
  · unfold zeroIO zeroIO_sumK0 at_ mix
    simp only [Int.emod_def]
    ring_nf

theorem unpacked (n t N : ℤ) (vdm : ℤ → ℤ → K) (head : ℤ → ℤ) (recv : ℤ → ℤ → K) (k i : ℤ) :
    let hd := fun q => head q + k * ((t + 3 * N) / (1 + t))
    UnpackedShrsA n t N vdm head recv k i = at_ n t vdm hd recv i ∧
    UnpackedShrsB n t N vdm head recv k i = at_ n t vdm hd recv (N + i) ∧
    UnpackedShrsMask n t N vdm head recv k i = at_ n t vdm hd recv (2 * N + i) := by
  refine ⟨?_, ?_, ?_⟩
  · unfold UnpackedShrsA UnpackedShrsA_sumK0 at_ mix
    simp only [Int.emod_def]
    ring_nf
  · unfold UnpackedShrsB UnpackedShrsB_sumK0 at_ mix
    simp only [Int.emod_def]
    ring_nf
  · unfold UnpackedShrsMask UnpackedShrsMask_sumK0 at_ mix
    simp only [Int.emod_def]
    ring_nf

/-- From start to end: after all hand-outs the three zero sharings of a multiplication batch and the one of an input or output
    batch are extracted sharings at places no other batch has. -/
theorem masks_once (p : Prep K) (ev : ℕ → Ev K) (s : St K) (T : ℕ) (N : ℕ)
    (n t : ℤ) (vdm : ℤ → ℤ → K) (head : ℤ → ℤ) (recv : ℤ → ℤ → K) (o1 o2 o3 : ℤ → K)
    (h1 : ∀ i, p.O1 i = zeroO1 n t N vdm head recv o1 i) (h2 : ∀ i, p.O2 i = zeroO2 n t N vdm head recv o2 i)
    (h3 : ∀ i, p.O3 i = zeroO3 n t N vdm head recv o3 i) (h4 : ∀ i, p.IO i = zeroIO n t N vdm head recv i)
    (zM : s.cM = 0) (zIO : s.cIO = 0) (hN : Nat.count (fun m => isMul (ev m)) T ≤ N)
    (dm : ∀ i j b, ev i = .mul b → ev j = .mul b → i = j) (di : ∀ i j b, ev i = .inp b → ev j = .inp b → i = j)
    (dout : ∀ i j b, ev i = .out b → ev j = .out b → i = j) :
    ∃ u : ℕ → ℕ → ℤ,
      (∀ i < T, ∀ b, ev i = .mul b → (st p ev s T).O1 b = at_ n t vdm head recv (u i 0) ∧
        (st p ev s T).O2 b = at_ n t vdm head recv (u i 1) ∧ (st p ev s T).O3 b = at_ n t vdm head recv (u i 2)) ∧
      (∀ i < T, ∀ b, ev i = .inp b → (st p ev s T).In b = at_ n t vdm head recv (u i 3)) ∧
      (∀ i < T, ∀ b, ev i = .out b → (st p ev s T).Out b = at_ n t vdm head recv (u i 3)) ∧
      (∀ i < T, ∀ j < T, ∀ f g, (isMul (ev i) ∧ f < 3 ∨ isIO (ev i) ∧ f = 3) → (isMul (ev j) ∧ g < 3 ∨ isIO (ev j) ∧ g = 3) →
        u i f = u j g → i = j ∧ f = g) := by
  have bm : ∀ i < T, isMul (ev i) → 0 ≤ (st p ev s i).cM ∧ (st p ev s i).cM < N := fun i hi u =>
    enough (fun m => isMul (ev m)) (fun m => (st p ev s m).cM) (ctr_mul p ev s) zM T N hN i hi u
  have bi : ∀ i, 0 ≤ (st p ev s i).cIO := by
    intro i
    have := counts (fun m => isIO (ev m)) (fun m => (st p ev s m).cIO) (ctr_io p ev s) i
    have z : (st p ev s 0).cIO = 0 := zIO
    omega
  refine ⟨fun i f => if f = 3 then 3 * N + (st p ev s i).cIO else f * N + (st p ev s i).cM, ?_, ?_, ?_, ?_⟩
  · intro i hi b hb
    obtain ⟨-, -, -, e1, e2, e3⟩ := mul_gets p ev s T dm i hi b hb
    obtain ⟨c0, c1⟩ := bm i hi ⟨b, hb⟩
    obtain ⟨z1, z2, z3, -⟩ := zeros n t N vdm head recv o1 o2 o3 _ c0
    rw [e1, e2, e3, h1, h2, h3, z1 c1, z2 c1, z3 c1]
    simp
  · intro i hi b hb
    obtain ⟨-, -, -, z⟩ := zeros n t N vdm head recv o1 o2 o3 _ (bi i)
    rw [input_gets p ev s T di i hi b hb, h4, z]
    simp
  · intro i hi b hb
    obtain ⟨-, -, -, z⟩ := zeros n t N vdm head recv o1 o2 o3 _ (bi i)
    rw [output_gets p ev s T dout i hi b hb, h4, z]
    simp
  · intro i hi j hj f g a b e
    rcases a with ⟨a, hf⟩ | ⟨a, rfl⟩ <;> rcases b with ⟨b, hg⟩ | ⟨b, rfl⟩
    · have f3 : f ≠ 3 := by omega
      have g3 : g ≠ 3 := by omega
      obtain ⟨c0, c1⟩ := bm i hi a
      obtain ⟨d0, d1⟩ := bm j hj b
      simp only [f3, g3, if_false] at e
      have hf' : f = 0 ∨ f = 1 ∨ f = 2 := by omega
      have hg' : g = 0 ∨ g = 1 ∨ g = 2 := by omega
      have fg : f = g := by
        rcases hf' with rfl | rfl | rfl <;> rcases hg' with rfl | rfl | rfl <;> first | rfl | (exfalso; push_cast at e; omega)
      subst fg
      exact ⟨mul_once p ev s i j a b (by linarith), rfl⟩
    · have f3 : f ≠ 3 := by omega
      obtain ⟨c0, c1⟩ := bm i hi a
      have := bi j
      simp only [f3, if_false, if_true] at e
      have hf' : f = 0 ∨ f = 1 ∨ f = 2 := by omega
      rcases hf' with rfl | rfl | rfl <;> exfalso <;> push_cast at e <;> omega
    · have g3 : g ≠ 3 := by omega
      obtain ⟨c0, c1⟩ := bm j hj b
      have := bi i
      simp only [g3, if_false, if_true] at e
      have hg' : g = 0 ∨ g = 1 ∨ g = 2 := by omega
      rcases hg' with rfl | rfl | rfl <;> exfalso <;> push_cast at e <;> omega
    · simp only [if_true] at e
      exact ⟨io_once p ev s i j a b (by omega), rfl⟩

theorem vandermonde_eq (q c : ℕ) : vandermonde (K := K) q c = (q : K) ^ c := by
  unfold vandermonde
  simp

/-- The extraction hides: whatever the other parties contribute, the contributions of any t+1 parties and the t+1 sharings
    extracted from a block determine each other. -/
theorem extraction_onto (t : ℕ) (H : Fin (t + 1) → ℕ) (hH : Function.Injective fun h => ((H h : ℕ) : K)) (rest v : Fin (t + 1) → K) :
    ∃! y : Fin (t + 1) → K, ∀ c : Fin (t + 1), ∑ h, vandermonde (K := K) (H h) (c : ℕ) * y h + rest c = v c := by
  let M := (Matrix.vandermonde fun h => ((H h : ℕ) : K)).transpose
  have hM : IsUnit M := by
    rw [Matrix.isUnit_iff_isUnit_det, Matrix.det_transpose]
    exact isUnit_iff_ne_zero.2 (Matrix.det_vandermonde_ne_zero_iff.2 hH)
  have e : ∀ (y : Fin (t + 1) → K) (c : Fin (t + 1)), ∑ h, vandermonde (K := K) (H h) (c : ℕ) * y h = M.mulVec y c := by
    intro y c
    simp only [Matrix.mulVec, dotProduct, M, Matrix.transpose_apply, Matrix.vandermonde_apply]
    exact Finset.sum_congr rfl fun h _ => by rw [vandermonde_eq]
  obtain ⟨y, hy⟩ := (Matrix.mulVec_surjective_iff_isUnit.2 hM) fun c => v c - rest c
  refine ⟨y, fun c => by rw [e, hy]; ring, fun z hz => ?_⟩
  apply Matrix.mulVec_injective_iff_isUnit.2 hM
  rw [hy]
  funext c
  rw [← e, ← hz c]; ring

/-- what is prepared is at least what was asked for, also when it is not a multiple of what one block gives -/
theorem prepared (t N q S : ℤ) (ht : 0 ≤ t) : q ≤ lenIO t N q ∧ S ≤ lenSingle t S := by
  have h : ∀ x : ℤ, x ≤ (1 + t) * ((t + x) / (1 + t)) := by
    intro x
    have a := Int.emod_lt_of_pos (t + x) (by omega : (0 : ℤ) < 1 + t)
    have b := Int.emod_add_mul_ediv (t + x) (1 + t)
    omega
  have u := h (3 * N + q)
  have w := h S
  unfold lenIO lenSingle
  have e : t + (3 * N + q) = t + 3 * N + q := by ring
  rw [e] at u
  constructor
  · ring_nf at u ⊢; linarith
  · ring_nf at w ⊢; linarith
end Vcg
