import Gsv.Ser

/-! Vocabulary of the contracts. -/
namespace Gsv
open Res
variable {E : Env} {α : Type}

/-- embedding of a `G1` element into `B1` -/
def io1 (x : E.G1) : Com1 E := ⟨0, x⟩
/-- embedding of a `G2` element into `B2` -/
def io2 (x : E.G2) : Com2 E := ⟨0, x⟩
/-- embedding of a `GT` element into `BT` -/
def ioT (x : E.GT) : ComT E := ⟨0, 0, 0, x⟩
/-- what scalars are multiplied with to embed them -/
def W1 (u : ℕ → Com1 E) (g : E.G1) : Com1 E := u 1 + io1 g
def W2 (v : ℕ → Com2 E) (g : E.G2) : Com2 E := v 1 + io2 g

variable (E) in
/-- one value drawn from the random source -/
inductive Drawn
  | fr (x : E.Fr)
  | g1 (x : E.G1)
  | g2 (x : E.G2)

/-- starting in state `s`, the draws are `l`, and they leave `s'` -/
def Run : E.Rng → List (Drawn E) → E.Rng → Prop
  | s, [], s' => s' = s
  | s, .fr x :: l, s' => x = E.drFr s ∧ Run (E.nxFr s) l s'
  | s, .g1 x :: l, s' => x = E.drG1 s ∧ Run (E.nxG1 s) l s'
  | s, .g2 x :: l, s' => x = E.drG2 s ∧ Run (E.nxG2 s) l s'

/-- the values `l` are, in some order, exactly the draws made between `s` and `s'` -/
def Draws (s : E.Rng) (l : List (Drawn E)) (s' : E.Rng) : Prop :=
  ∃ σ : List ℕ, σ.Perm (List.range l.length) ∧ Run s (σ.filterMap fun i => l[i]?) s'

/-- the binding CRS made of generators and scalars -/
def mkCrs (p1 : E.G1) (p2 : E.G2) (a1 a2 t1 t2 : E.Fr) : CRS E :=
  ⟨vec 2 (sel2 ⟨p1, a1 • p1⟩ ⟨t1 • p1, t1 • a1 • p1⟩), vec 2 (sel2 ⟨p2, a2 • p2⟩ ⟨t2 • p2, t2 • a2 • p2⟩),
    p1, p2, E.e p1 p2⟩

/-- `σ` numbers the entries of an `a × b` matrix without repetition, using the numbers below `a * b` -/
def Places (a b : ℕ) (σ : ℕ → ℕ → ℕ) : Prop :=
  (∀ i j, i < a → j < b → σ i j < a * b) ∧
  ∀ i j i' j', i < a → j < b → i' < a → j' < b → σ i j = σ i' j' → i = i' ∧ j = j'

theorem places_row (a b : ℕ) (h : b ≤ 2) (h' : 0 < b) : Places a b (fun i j => b * i + j) := by
  have : b = 1 ∨ b = 2 := by omega
  rcases this with rfl | rfl <;> (constructor <;> intros <;> dsimp only at * <;> omega)
theorem places_col (a b : ℕ) (h : a ≤ 2) (h' : 0 < a) : Places a b (fun i j => i + a * j) := by
  have : a = 1 ∨ a = 2 := by omega
  rcases this with rfl | rfl <;> (constructor <;> intros <;> dsimp only at * <;> omega)

/-- lists that fit the 64-bit length field of an encoding -/
abbrev Fit1 (l : List α) : Prop := Lst (fun _ => True) l
abbrev Fit2 (l : List (List α)) : Prop := Lst (Lst fun _ => True) l
abbrev Com1.Fits (_ : Com1 E) : Prop := True
abbrev Com2.Fits (_ : Com2 E) : Prop := True
def CRS.Fits (a : CRS E) : Prop := Fit1 a.u ∧ Fit1 a.v
def Commit1.Fits (a : Commit1 E) : Prop := Fit1 a.coms ∧ Fit2 a.rand
def Commit2.Fits (a : Commit2 E) : Prop := Fit1 a.coms ∧ Fit2 a.rand
def EquProof.Fits (a : EquProof E) : Prop := Fit1 a.pi ∧ Fit1 a.theta ∧ Fit2 a.rand
def PPE.Fits (a : PPE E) : Prop := Fit1 a.a_consts ∧ Fit1 a.b_consts ∧ Fit2 a.gamma
def MSMEG1.Fits (a : MSMEG1 E) : Prop := Fit1 a.a_consts ∧ Fit1 a.b_consts ∧ Fit2 a.gamma
def MSMEG2.Fits (a : MSMEG2 E) : Prop := Fit1 a.a_consts ∧ Fit1 a.b_consts ∧ Fit2 a.gamma
def QuadEqu.Fits (a : QuadEqu E) : Prop := Fit1 a.a_consts ∧ Fit1 a.b_consts ∧ Fit2 a.gamma

section
variable (c : Compress) (v : Validate)
def rt_vfr {chk} (h : Vld chk) := (RT.fr (E := E) c .No).vec h v
def rt_vg1 {chk} (h : Vld chk) := (RT.g1 (E := E) c .No).vec h v
def rt_vg2 {chk} (h : Vld chk) := (RT.g2 (E := E) c .No).vec h v
def rt_mfr {chk chk'} (h : Vld chk) (h' : Vld chk') := ((RT.fr (E := E) c .No).vec h .No).vec h' v
@[gs] theorem serVec_fr (x : List E.Fr) (w : Bytes) (h : Fit1 x) : serVec (serPrim (E.encFr c)) x w = ok (.ok (), w ++ encVec (E.encFr c) x) :=
  (rt_vfr (chk := chkPrim) c .No fun _ => rfl).ser x w h
@[gs] theorem serVec_g1 (x : List E.G1) (w : Bytes) (h : Fit1 x) : serVec (serPrim (E.enc1 c)) x w = ok (.ok (), w ++ encVec (E.enc1 c) x) :=
  (rt_vg1 (chk := chkPrim) c .No fun _ => rfl).ser x w h
@[gs] theorem serVec_g2 (x : List E.G2) (w : Bytes) (h : Fit1 x) : serVec (serPrim (E.enc2 c)) x w = ok (.ok (), w ++ encVec (E.enc2 c) x) :=
  (rt_vg2 (chk := chkPrim) c .No fun _ => rfl).ser x w h
@[gs] theorem serVec_mfr (x : List (List E.Fr)) (w : Bytes) (h : Fit2 x) :
    serVec (serVec (serPrim (E.encFr c))) x w = ok (.ok (), w ++ encVec (encVec (E.encFr c)) x) :=
  (rt_mfr (chk := chkPrim) (chk' := chkPrim) c .No (fun _ => rfl) fun _ => rfl).ser x w h
@[gs] theorem deVec_fr {chk} (x : List E.Fr) (r : Bytes) (h' : Vld chk) (h : Fit1 x) :
    deVec (dePrim (E.decFr c .No)) chk v (encVec (E.encFr c) x ++ r) = ok (.ok x, r) := (rt_vfr c v h').de x r h
@[gs] theorem deVec_g1 {chk} (x : List E.G1) (r : Bytes) (h' : Vld chk) (h : Fit1 x) :
    deVec (dePrim (E.dec1 c .No)) chk v (encVec (E.enc1 c) x ++ r) = ok (.ok x, r) := (rt_vg1 c v h').de x r h
@[gs] theorem deVec_g2 {chk} (x : List E.G2) (r : Bytes) (h' : Vld chk) (h : Fit1 x) :
    deVec (dePrim (E.dec2 c .No)) chk v (encVec (E.enc2 c) x ++ r) = ok (.ok x, r) := (rt_vg2 c v h').de x r h
@[gs] theorem deVec_mfr {chk chk'} (x : List (List E.Fr)) (r : Bytes) (h'' : Vld chk) (h' : Vld chk') (h : Fit2 x) :
    deVec (deVec (dePrim (E.decFr c .No)) chk .No) chk' v (encVec (encVec (E.encFr c)) x ++ r) = ok (.ok x, r) := (rt_mfr c v h'' h').de x r h
@[gs] theorem szVec_fr (x : List E.Fr) (h : Fit1 x) : szVec (fun _ => ok (E.szFr c)) x = ok (encVec (E.encFr c) x).length :=
  (rt_vfr (chk := chkPrim) c .No fun _ => rfl).sz x h
@[gs] theorem szVec_g1 (x : List E.G1) (h : Fit1 x) : szVec (fun _ => ok (E.sz1 c)) x = ok (encVec (E.enc1 c) x).length :=
  (rt_vg1 (chk := chkPrim) c .No fun _ => rfl).sz x h
@[gs] theorem szVec_g2 (x : List E.G2) (h : Fit1 x) : szVec (fun _ => ok (E.sz2 c)) x = ok (encVec (E.enc2 c) x).length :=
  (rt_vg2 (chk := chkPrim) c .No fun _ => rfl).sz x h
@[gs] theorem szVec_mfr (x : List (List E.Fr)) (h : Fit2 x) :
    szVec (szVec (fun _ => ok (E.szFr c))) x = ok (encVec (encVec (E.encFr c)) x).length :=
  (rt_mfr (chk := chkPrim) (chk' := chkPrim) c .No (fun _ => rfl) fun _ => rfl).sz x h
end
attribute [gs] Env.encFr_len Env.enc1_len Env.enc2_len Env.encT_len
@[gs] theorem serVec_ok {α : Type} (enc : α → Bytes) (l : List α) (w : Bytes) :
    serVec (fun x w => ok (.ok (), w ++ enc x)) l w = ok (.ok (), w ++ encVec enc l) := by
  rw [serVec, serSeq_enc (P := fun _ => True) (enc := enc) (fun _ _ _ => rfl) l _ (fun _ _ => trivial)]
  simp [encVec]
@[gs] theorem szVec_ok {α : Type} (enc : α → Bytes) (l : List α) :
    szVec (fun x => ok (enc x).length) l = ok (encVec enc l).length := by
  obtain ⟨s, hs, hs'⟩ := szSeq_enc (P := fun _ => True) (enc := enc) (f := fun x => ok (enc x).length) (fun _ _ => rfl) l (fun _ _ => trivial)
  simp [szVec, hs, hs', encVec]
@[gs] theorem vld_prim {α : Type} : Vld (chkPrim : α → _) = True := eq_true fun _ => rfl
@[gs] theorem vld_ok {α : Type} : Vld (fun _ : α => ok (.ok ())) = True := eq_true fun _ => rfl
@[gs] theorem encU8_length (b : ℕ) : (encU8 b).length = 1 := rfl
@[gs] theorem chkEach_ok {α : Type} (l : List α) : chkEach (fun _ => ok (.ok ())) l = ok (.ok ()) := by
  induction l with
  | nil => rfl
  | cons a l ih => simp [chkEach, ih]
@[gs] theorem chkPrim_eq {α : Type} (a : α) : chkPrim a = ok (.ok ()) := rfl
@[gs] theorem serPrim_eq {α : Type} (e : α → Bytes) (x : α) (w : Bytes) : serPrim e x w = ok (.ok (), w ++ e x) := rfl
@[gs] theorem dePrim_fr (c v) (x : E.Fr) (r) : dePrim (E.decFr c v) (E.encFr c x ++ r) = ok (.ok x, r) := (RT.fr c v).de x r trivial
@[gs] theorem dePrim_g1 (c v) (x : E.G1) (r) : dePrim (E.dec1 c v) (E.enc1 c x ++ r) = ok (.ok x, r) := (RT.g1 c v).de x r trivial
@[gs] theorem dePrim_g2 (c v) (x : E.G2) (r) : dePrim (E.dec2 c v) (E.enc2 c x ++ r) = ok (.ok x, r) := (RT.g2 c v).de x r trivial
@[gs] theorem dePrim_gt (c v) (x : E.GT) (r) : dePrim (E.decT c v) (E.encT c x ++ r) = ok (.ok x, r) := (RT.gt c v).de x r trivial
attribute [gs] List.append_assoc List.length_append

end Gsv
