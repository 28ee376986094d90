import Gsv.Core
import Mathlib.Algebra.Field.Basic
import Mathlib.Algebra.Module.Basic

/-! The environment the code is generic over (`E: Pairing` and the random source), the data types
of the crate, and their algebra on the specification side. -/

namespace Gsv
open Res

inductive Compress | Yes | No deriving DecidableEq
inductive Validate | Yes | No deriving DecidableEq
inductive SerErr | NotEnoughSpace | InvalidData | UnexpectedFlags | IoError deriving DecidableEq

abbrev Bytes := List ℕ

/-- What the crate assumes of `ark_ec::Pairing`, `Field`, `UniformRand`, `CanonicalSerialize` for
the curve types, and `Rng`.  `G1`/`G1Affine` (and `G2`/`G2Affine`) are the same group. -/
structure Env where
  Fr : Type
  G1 : Type
  G2 : Type
  GT : Type
  [field : Field Fr]
  [grp1 : AddCommGroup G1]
  [grp2 : AddCommGroup G2]
  [grpT : AddCommGroup GT]
  [mod1 : Module Fr G1]
  [mod2 : Module Fr G2]
  [modT : Module Fr GT]
  [deFr : DecidableEq Fr]
  [de1 : DecidableEq G1]
  [de2 : DecidableEq G2]
  [deT : DecidableEq GT]
  /-- the pairing -/
  e : G1 → G2 → GT
  e_add_left : ∀ x x' y, e (x + x') y = e x y + e x' y
  e_add_right : ∀ x y y', e x (y + y') = e x y + e x y'
  e_smul_left : ∀ (c : Fr) x y, e (c • x) y = c • e x y
  e_smul_right : ∀ (c : Fr) x y, e x (c • y) = c • e x y
  /-- prime order: the pairing of two non-zero elements is non-zero -/
  e_nondeg : ∀ x y, e x y = 0 → x = 0 ∨ y = 0
  /-- prime order: every non-zero element generates -/
  gen1 : ∀ g x : G1, g ≠ 0 → ∃ c : Fr, x = c • g
  gen2 : ∀ g x : G2, g ≠ 0 → ∃ c : Fr, x = c • g
  /-- what `multi_pairing` does with lists of different length is not specified -/
  mpOdd : List G1 → List G2 → Option GT
  /-- state of the caller's random source, and what a draw of each type returns and leaves -/
  Rng : Type
  drFr : Rng → Fr
  nxFr : Rng → Rng
  drG1 : Rng → G1
  nxG1 : Rng → Rng
  drG2 : Rng → G2
  nxG2 : Rng → Rng
  /-- state of a fixed random source (`ark_std::test_rng`) -/
  testRng : Rng
  /-- what reads of hidden state give (statics with interior mutability, thread-locals, the number of threads):
  anything, read by read -/
  amb : ℕ → ℕ
  /-- canonical encodings of the curve types -/
  encFr : Compress → Fr → Bytes
  enc1 : Compress → G1 → Bytes
  enc2 : Compress → G2 → Bytes
  encT : Compress → GT → Bytes
  decFr : Compress → Validate → Bytes → Except SerErr Fr × Bytes
  dec1 : Compress → Validate → Bytes → Except SerErr G1 × Bytes
  dec2 : Compress → Validate → Bytes → Except SerErr G2 × Bytes
  decT : Compress → Validate → Bytes → Except SerErr GT × Bytes
  szFr : Compress → ℕ
  sz1 : Compress → ℕ
  sz2 : Compress → ℕ
  szT : Compress → ℕ
  decFr_enc : ∀ c v x r, decFr c v (encFr c x ++ r) = (.ok x, r)
  dec1_enc : ∀ c v x r, dec1 c v (enc1 c x ++ r) = (.ok x, r)
  dec2_enc : ∀ c v x r, dec2 c v (enc2 c x ++ r) = (.ok x, r)
  decT_enc : ∀ c v x r, decT c v (encT c x ++ r) = (.ok x, r)
  encFr_len : ∀ c x, (encFr c x).length = szFr c
  enc1_len : ∀ c x, (enc1 c x).length = sz1 c
  enc2_len : ∀ c x, (enc2 c x).length = sz2 c
  encT_len : ∀ c x, (encT c x).length = szT c

attribute [instance] Env.field Env.grp1 Env.grp2 Env.grpT Env.mod1 Env.mod2 Env.modT
  Env.deFr Env.de1 Env.de2 Env.deT
attribute [simp] Env.e_add_left Env.e_add_right Env.e_smul_left Env.e_smul_right

variable (E : Env)

namespace Env
variable {E : Env}
/-- state of the random source after `k` draws of scalars -/
def adv (s : E.Rng) (k : ℕ) : E.Rng := E.nxFr^[k] s
/-- the `k`-th scalar drawn from state `s` -/
def frAt (s : E.Rng) (k : ℕ) : E.Fr := E.drFr (adv s k)
theorem nxFr_eq (s : E.Rng) : E.nxFr s = adv s 1 := rfl
theorem drFr_eq (s : E.Rng) : E.drFr s = frAt s 0 := rfl
theorem adv_adv (s : E.Rng) (a b : ℕ) : adv (adv s a) b = adv s (a + b) := by
  simp [adv, Nat.add_comm a b, Function.iterate_add_apply]
theorem adv_zero (s : E.Rng) : adv s 0 = s := rfl
theorem frAt_adv (s : E.Rng) (a b : ℕ) : frAt (adv s a) b = frAt s (a + b) := by
  simp [frAt, adv_adv]
attribute [gs] nxFr_eq drFr_eq adv_adv frAt_adv adv_zero
@[simp] theorem e_zero_left (y : E.G2) : E.e 0 y = 0 := by
  have := E.e_smul_left 0 0 y; simpa using this
@[simp] theorem e_zero_right (x : E.G1) : E.e x 0 = 0 := by
  have := E.e_smul_right 0 x 0; simpa using this
@[simp] theorem e_neg_left (x : E.G1) (y : E.G2) : E.e (-x) y = - E.e x y := by
  have := E.e_smul_left (-1) x y; simpa using this
@[simp] theorem e_neg_right (x : E.G1) (y : E.G2) : E.e x (-y) = - E.e x y := by
  have := E.e_smul_right (-1) x y; simpa using this
@[simp] theorem e_sub_left (x x' : E.G1) (y : E.G2) : E.e (x - x') y = E.e x y - E.e x' y := by
  simp [sub_eq_add_neg]
@[simp] theorem e_sub_right (x : E.G1) (y y' : E.G2) : E.e x (y - y') = E.e x y - E.e x y' := by
  simp [sub_eq_add_neg]
theorem e_sum_left {ι : Type} (s : Finset ι) (f : ι → E.G1) (y : E.G2) :
    E.e (∑ i ∈ s, f i) y = ∑ i ∈ s, E.e (f i) y := by
  classical
  induction s using Finset.induction_on with
  | empty => simp
  | insert a s h ih => simp [Finset.sum_insert h, ih]
theorem e_sum_right {ι : Type} (s : Finset ι) (x : E.G1) (f : ι → E.G2) :
    E.e x (∑ i ∈ s, f i) = ∑ i ∈ s, E.e x (f i) := by
  classical
  induction s using Finset.induction_on with
  | empty => simp
  | insert a s h ih => simp [Finset.sum_insert h, ih]

def multiPairing (xs : List E.G1) (ys : List E.G2) : Res E.GT :=
  if xs.length = ys.length then ok ((xs.zip ys).map fun p => E.e p.1 p.2).sum
  else match E.mpOdd xs ys with
    | some t => ok t
    | none => panic
@[gs] theorem multiPairing_vec (n : ℕ) (x : ℕ → E.G1) (y : ℕ → E.G2) :
    multiPairing (vec n x) (vec n y) = ok (∑ i ∈ Finset.range n, E.e (x i) (y i)) := by
  simp [multiPairing, zip_vec, map_vec, sum_vec]
end Env

/-! ### The data types of the crate (checked against the compiler's on every run) -/

@[ext] structure Com1 where
  f0 : E.G1
  f1 : E.G1
@[ext] structure Com2 where
  f0 : E.G2
  f1 : E.G2
@[ext] structure ComT where
  f0 : E.GT
  f1 : E.GT
  f2 : E.GT
  f3 : E.GT

namespace Com1
variable {E}
instance : DecidableEq (Com1 E) := fun a b => decidable_of_iff (a.f0 = b.f0 ∧ a.f1 = b.f1) Com1.ext_iff.symm
instance : Zero (Com1 E) := ⟨⟨0, 0⟩⟩
instance : Add (Com1 E) := ⟨fun a b => ⟨a.f0 + b.f0, a.f1 + b.f1⟩⟩
instance : Neg (Com1 E) := ⟨fun a => ⟨-a.f0, -a.f1⟩⟩
instance : Sub (Com1 E) := ⟨fun a b => ⟨a.f0 - b.f0, a.f1 - b.f1⟩⟩
instance : SMul E.Fr (Com1 E) := ⟨fun c a => ⟨c • a.f0, c • a.f1⟩⟩
instance : SMul ℕ (Com1 E) := ⟨fun c a => ⟨c • a.f0, c • a.f1⟩⟩
instance : SMul ℤ (Com1 E) := ⟨fun c a => ⟨c • a.f0, c • a.f1⟩⟩
@[simp] theorem zero_f0 : (0 : Com1 E).f0 = 0 := rfl
@[simp] theorem zero_f1 : (0 : Com1 E).f1 = 0 := rfl
@[simp] theorem add_f0 (a b : Com1 E) : (a + b).f0 = a.f0 + b.f0 := rfl
@[simp] theorem add_f1 (a b : Com1 E) : (a + b).f1 = a.f1 + b.f1 := rfl
@[simp] theorem neg_f0 (a : Com1 E) : (-a).f0 = -a.f0 := rfl
@[simp] theorem neg_f1 (a : Com1 E) : (-a).f1 = -a.f1 := rfl
@[simp] theorem sub_f0 (a b : Com1 E) : (a - b).f0 = a.f0 - b.f0 := rfl
@[simp] theorem sub_f1 (a b : Com1 E) : (a - b).f1 = a.f1 - b.f1 := rfl
@[simp] theorem smul_f0 (c : E.Fr) (a : Com1 E) : (c • a).f0 = c • a.f0 := rfl
@[simp] theorem smul_f1 (c : E.Fr) (a : Com1 E) : (c • a).f1 = c • a.f1 := rfl
def toProd (a : Com1 E) : E.G1 × E.G1 := (a.f0, a.f1)
theorem toProd_inj : Function.Injective (toProd : Com1 E → _) := by
  intro a b h; cases a; cases b; simpa [toProd] using h
instance : AddCommGroup (Com1 E) :=
  toProd_inj.addCommGroup toProd rfl (fun _ _ => rfl) (fun _ => rfl) (fun _ _ => rfl)
    (fun _ _ => rfl) (fun _ _ => rfl)
def toProdHom : Com1 E →+ E.G1 × E.G1 := ⟨⟨toProd, rfl⟩, fun _ _ => rfl⟩
instance : Module E.Fr (Com1 E) := toProd_inj.module E.Fr toProdHom (fun _ _ => rfl)
instance : Inhabited (Com1 E) := ⟨0⟩
@[simp] theorem sum_f0 {ι : Type} (s : Finset ι) (f : ι → Com1 E) : (∑ i ∈ s, f i).f0 = ∑ i ∈ s, (f i).f0 :=
  map_sum (⟨⟨Com1.f0, rfl⟩, fun _ _ => rfl⟩ : Com1 E →+ E.G1) f s
@[simp] theorem sum_f1 {ι : Type} (s : Finset ι) (f : ι → Com1 E) : (∑ i ∈ s, f i).f1 = ∑ i ∈ s, (f i).f1 :=
  map_sum (⟨⟨Com1.f1, rfl⟩, fun _ _ => rfl⟩ : Com1 E →+ E.G1) f s
end Com1

namespace Com2
variable {E}
instance : DecidableEq (Com2 E) := fun a b => decidable_of_iff (a.f0 = b.f0 ∧ a.f1 = b.f1) Com2.ext_iff.symm
instance : Zero (Com2 E) := ⟨⟨0, 0⟩⟩
instance : Add (Com2 E) := ⟨fun a b => ⟨a.f0 + b.f0, a.f1 + b.f1⟩⟩
instance : Neg (Com2 E) := ⟨fun a => ⟨-a.f0, -a.f1⟩⟩
instance : Sub (Com2 E) := ⟨fun a b => ⟨a.f0 - b.f0, a.f1 - b.f1⟩⟩
instance : SMul E.Fr (Com2 E) := ⟨fun c a => ⟨c • a.f0, c • a.f1⟩⟩
instance : SMul ℕ (Com2 E) := ⟨fun c a => ⟨c • a.f0, c • a.f1⟩⟩
instance : SMul ℤ (Com2 E) := ⟨fun c a => ⟨c • a.f0, c • a.f1⟩⟩
@[simp] theorem zero_f0 : (0 : Com2 E).f0 = 0 := rfl
@[simp] theorem zero_f1 : (0 : Com2 E).f1 = 0 := rfl
@[simp] theorem add_f0 (a b : Com2 E) : (a + b).f0 = a.f0 + b.f0 := rfl
@[simp] theorem add_f1 (a b : Com2 E) : (a + b).f1 = a.f1 + b.f1 := rfl
@[simp] theorem neg_f0 (a : Com2 E) : (-a).f0 = -a.f0 := rfl
@[simp] theorem neg_f1 (a : Com2 E) : (-a).f1 = -a.f1 := rfl
@[simp] theorem sub_f0 (a b : Com2 E) : (a - b).f0 = a.f0 - b.f0 := rfl
@[simp] theorem sub_f1 (a b : Com2 E) : (a - b).f1 = a.f1 - b.f1 := rfl
@[simp] theorem smul_f0 (c : E.Fr) (a : Com2 E) : (c • a).f0 = c • a.f0 := rfl
@[simp] theorem smul_f1 (c : E.Fr) (a : Com2 E) : (c • a).f1 = c • a.f1 := rfl
def toProd (a : Com2 E) : E.G2 × E.G2 := (a.f0, a.f1)
theorem toProd_inj : Function.Injective (toProd : Com2 E → _) := by
  intro a b h; cases a; cases b; simpa [toProd] using h
instance : AddCommGroup (Com2 E) :=
  toProd_inj.addCommGroup toProd rfl (fun _ _ => rfl) (fun _ => rfl) (fun _ _ => rfl)
    (fun _ _ => rfl) (fun _ _ => rfl)
def toProdHom : Com2 E →+ E.G2 × E.G2 := ⟨⟨toProd, rfl⟩, fun _ _ => rfl⟩
instance : Module E.Fr (Com2 E) := toProd_inj.module E.Fr toProdHom (fun _ _ => rfl)
instance : Inhabited (Com2 E) := ⟨0⟩
@[simp] theorem sum_f0 {ι : Type} (s : Finset ι) (f : ι → Com2 E) : (∑ i ∈ s, f i).f0 = ∑ i ∈ s, (f i).f0 :=
  map_sum (⟨⟨Com2.f0, rfl⟩, fun _ _ => rfl⟩ : Com2 E →+ E.G2) f s
@[simp] theorem sum_f1 {ι : Type} (s : Finset ι) (f : ι → Com2 E) : (∑ i ∈ s, f i).f1 = ∑ i ∈ s, (f i).f1 :=
  map_sum (⟨⟨Com2.f1, rfl⟩, fun _ _ => rfl⟩ : Com2 E →+ E.G2) f s
end Com2

namespace ComT
variable {E}
instance : DecidableEq (ComT E) := fun a b => decidable_of_iff (a.f0 = b.f0 ∧ a.f1 = b.f1 ∧ a.f2 = b.f2 ∧ a.f3 = b.f3) ComT.ext_iff.symm
instance : Zero (ComT E) := ⟨⟨0, 0, 0, 0⟩⟩
instance : Add (ComT E) := ⟨fun a b => ⟨a.f0 + b.f0, a.f1 + b.f1, a.f2 + b.f2, a.f3 + b.f3⟩⟩
instance : Neg (ComT E) := ⟨fun a => ⟨-a.f0, -a.f1, -a.f2, -a.f3⟩⟩
instance : Sub (ComT E) := ⟨fun a b => ⟨a.f0 - b.f0, a.f1 - b.f1, a.f2 - b.f2, a.f3 - b.f3⟩⟩
instance : SMul E.Fr (ComT E) := ⟨fun c a => ⟨c • a.f0, c • a.f1, c • a.f2, c • a.f3⟩⟩
instance : SMul ℕ (ComT E) := ⟨fun c a => ⟨c • a.f0, c • a.f1, c • a.f2, c • a.f3⟩⟩
instance : SMul ℤ (ComT E) := ⟨fun c a => ⟨c • a.f0, c • a.f1, c • a.f2, c • a.f3⟩⟩
@[simp] theorem zero_f0 : (0 : ComT E).f0 = 0 := rfl
@[simp] theorem zero_f1 : (0 : ComT E).f1 = 0 := rfl
@[simp] theorem zero_f2 : (0 : ComT E).f2 = 0 := rfl
@[simp] theorem zero_f3 : (0 : ComT E).f3 = 0 := rfl
@[simp] theorem add_f0 (a b : ComT E) : (a + b).f0 = a.f0 + b.f0 := rfl
@[simp] theorem add_f1 (a b : ComT E) : (a + b).f1 = a.f1 + b.f1 := rfl
@[simp] theorem add_f2 (a b : ComT E) : (a + b).f2 = a.f2 + b.f2 := rfl
@[simp] theorem add_f3 (a b : ComT E) : (a + b).f3 = a.f3 + b.f3 := rfl
@[simp] theorem neg_f0 (a : ComT E) : (-a).f0 = -a.f0 := rfl
@[simp] theorem neg_f1 (a : ComT E) : (-a).f1 = -a.f1 := rfl
@[simp] theorem neg_f2 (a : ComT E) : (-a).f2 = -a.f2 := rfl
@[simp] theorem neg_f3 (a : ComT E) : (-a).f3 = -a.f3 := rfl
@[simp] theorem sub_f0 (a b : ComT E) : (a - b).f0 = a.f0 - b.f0 := rfl
@[simp] theorem sub_f1 (a b : ComT E) : (a - b).f1 = a.f1 - b.f1 := rfl
@[simp] theorem sub_f2 (a b : ComT E) : (a - b).f2 = a.f2 - b.f2 := rfl
@[simp] theorem sub_f3 (a b : ComT E) : (a - b).f3 = a.f3 - b.f3 := rfl
@[simp] theorem smul_f0 (c : E.Fr) (a : ComT E) : (c • a).f0 = c • a.f0 := rfl
@[simp] theorem smul_f1 (c : E.Fr) (a : ComT E) : (c • a).f1 = c • a.f1 := rfl
@[simp] theorem smul_f2 (c : E.Fr) (a : ComT E) : (c • a).f2 = c • a.f2 := rfl
@[simp] theorem smul_f3 (c : E.Fr) (a : ComT E) : (c • a).f3 = c • a.f3 := rfl
def toProd (a : ComT E) : E.GT × E.GT × E.GT × E.GT := (a.f0, a.f1, a.f2, a.f3)
theorem toProd_inj : Function.Injective (toProd : ComT E → _) := by
  intro a b h; cases a; cases b; simpa [toProd] using h
instance : AddCommGroup (ComT E) :=
  toProd_inj.addCommGroup toProd rfl (fun _ _ => rfl) (fun _ => rfl) (fun _ _ => rfl)
    (fun _ _ => rfl) (fun _ _ => rfl)
def toProdHom : ComT E →+ E.GT × E.GT × E.GT × E.GT := ⟨⟨toProd, rfl⟩, fun _ _ => rfl⟩
instance : Module E.Fr (ComT E) := toProd_inj.module E.Fr toProdHom (fun _ _ => rfl)
instance : Inhabited (ComT E) := ⟨0⟩
@[simp] theorem sum_f0 {ι : Type} (s : Finset ι) (f : ι → ComT E) : (∑ i ∈ s, f i).f0 = ∑ i ∈ s, (f i).f0 :=
  map_sum (⟨⟨ComT.f0, rfl⟩, fun _ _ => rfl⟩ : ComT E →+ E.GT) f s
@[simp] theorem sum_f1 {ι : Type} (s : Finset ι) (f : ι → ComT E) : (∑ i ∈ s, f i).f1 = ∑ i ∈ s, (f i).f1 :=
  map_sum (⟨⟨ComT.f1, rfl⟩, fun _ _ => rfl⟩ : ComT E →+ E.GT) f s
@[simp] theorem sum_f2 {ι : Type} (s : Finset ι) (f : ι → ComT E) : (∑ i ∈ s, f i).f2 = ∑ i ∈ s, (f i).f2 :=
  map_sum (⟨⟨ComT.f2, rfl⟩, fun _ _ => rfl⟩ : ComT E →+ E.GT) f s
@[simp] theorem sum_f3 {ι : Type} (s : Finset ι) (f : ι → ComT E) : (∑ i ∈ s, f i).f3 = ∑ i ∈ s, (f i).f3 :=
  map_sum (⟨⟨ComT.f3, rfl⟩, fun _ _ => rfl⟩ : ComT E →+ E.GT) f s
end ComT

/-- the pairing `B1 × B2 → BT` -/
def pr {E : Env} (x : Com1 E) (y : Com2 E) : ComT E :=
  ⟨E.e x.f0 y.f0, E.e x.f0 y.f1, E.e x.f1 y.f0, E.e x.f1 y.f1⟩

section pr
variable {E : Env}
theorem pr_add_left (x x' : Com1 E) (y : Com2 E) : pr (x + x') y = pr x y + pr x' y := by
  ext <;> simp [pr]
theorem pr_add_right (x : Com1 E) (y y' : Com2 E) : pr x (y + y') = pr x y + pr x y' := by
  ext <;> simp [pr]
theorem pr_smul_left (c : E.Fr) (x : Com1 E) (y : Com2 E) : pr (c • x) y = c • pr x y := by
  ext <;> simp [pr]
theorem pr_smul_right (c : E.Fr) (x : Com1 E) (y : Com2 E) : pr x (c • y) = c • pr x y := by
  ext <;> simp [pr]
@[simp] theorem pr_zero_left (y : Com2 E) : pr 0 y = 0 := by ext <;> simp [pr]
@[simp] theorem pr_zero_right (x : Com1 E) : pr x 0 = 0 := by ext <;> simp [pr]
theorem pr_neg_left (x : Com1 E) (y : Com2 E) : pr (-x) y = - pr x y := by ext <;> simp [pr]
theorem pr_neg_right (x : Com1 E) (y : Com2 E) : pr x (-y) = - pr x y := by ext <;> simp [pr]
theorem pr_sub_left (x x' : Com1 E) (y : Com2 E) : pr (x - x') y = pr x y - pr x' y := by
  ext <;> simp [pr]
theorem pr_sub_right (x : Com1 E) (y y' : Com2 E) : pr x (y - y') = pr x y - pr x y' := by
  ext <;> simp [pr]
theorem pr_sum_left {ι : Type} (s : Finset ι) (f : ι → Com1 E) (y : Com2 E) :
    pr (∑ i ∈ s, f i) y = ∑ i ∈ s, pr (f i) y := by
  ext <;> simp [pr, Env.e_sum_left]
theorem pr_sum_right {ι : Type} (s : Finset ι) (x : Com1 E) (f : ι → Com2 E) :
    pr x (∑ i ∈ s, f i) = ∑ i ∈ s, pr x (f i) := by
  ext <;> simp [pr, Env.e_sum_right]
end pr

structure CRS where
  u : List (Com1 E)
  v : List (Com2 E)
  g1_gen : E.G1
  g2_gen : E.G2
  gt_gen : E.GT
deriving DecidableEq
structure Commit1 where
  coms : List (Com1 E)
  rand : List (List E.Fr)
deriving DecidableEq
structure Commit2 where
  coms : List (Com2 E)
  rand : List (List E.Fr)
deriving DecidableEq
inductive EquType | PairingProduct | MultiScalarG1 | MultiScalarG2 | Quadratic
deriving DecidableEq
def EquType.idx : EquType → ℕ
  | .PairingProduct => 0
  | .MultiScalarG1 => 1
  | .MultiScalarG2 => 2
  | .Quadratic => 3
@[gs] theorem EquType.idx_inj (a b : EquType) : (a.idx = b.idx) = (a = b) := by
  cases a <;> cases b <;> simp [EquType.idx]
structure EquProof where
  pi : List (Com2 E)
  theta : List (Com1 E)
  equ_type : EquType
  rand : List (List E.Fr)
deriving DecidableEq
structure CProof where
  xcoms : Commit1 E
  ycoms : Commit2 E
  equ_proofs : List (EquProof E)
deriving DecidableEq
structure PPE where
  a_consts : List E.G1
  b_consts : List E.G2
  gamma : List (List E.Fr)
  target : E.GT
deriving DecidableEq
structure MSMEG1 where
  a_consts : List E.G1
  b_consts : List E.Fr
  gamma : List (List E.Fr)
  target : E.G1
deriving DecidableEq
structure MSMEG2 where
  a_consts : List E.Fr
  b_consts : List E.G2
  gamma : List (List E.Fr)
  target : E.G2
deriving DecidableEq
structure QuadEqu where
  a_consts : List E.Fr
  b_consts : List E.Fr
  gamma : List (List E.Fr)
  target : E.Fr
deriving DecidableEq

end Gsv
