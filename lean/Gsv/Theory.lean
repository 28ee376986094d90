import Gsv.Math


/-! The mathematics of Groth–Sahai proofs, about the closed forms that the contracts speak of. -/
set_option linter.all false
namespace Gsv
open Finset
variable {E : Env}

/-! ### What it means to satisfy an equation -/
def SatPPE (m n : ℕ) (a : ℕ → E.G1) (b : ℕ → E.G2) (Γ : ℕ → ℕ → E.Fr) (t : E.GT) (x : ℕ → E.G1) (y : ℕ → E.G2) : Prop :=
  (∑ j ∈ range n, E.e (a j) (y j)) + (∑ i ∈ range m, E.e (x i) (b i)) + ∑ i ∈ range m, ∑ j ∈ range n, Γ i j • E.e (x i) (y j) = t
def SatMSMEG1 (m n : ℕ) (a : ℕ → E.G1) (b : ℕ → E.Fr) (Γ : ℕ → ℕ → E.Fr) (t : E.G1) (x : ℕ → E.G1) (y : ℕ → E.Fr) : Prop :=
  (∑ j ∈ range n, y j • a j) + (∑ i ∈ range m, b i • x i) + ∑ i ∈ range m, ∑ j ∈ range n, Γ i j • y j • x i = t
def SatMSMEG2 (m n : ℕ) (a : ℕ → E.Fr) (b : ℕ → E.G2) (Γ : ℕ → ℕ → E.Fr) (t : E.G2) (x : ℕ → E.Fr) (y : ℕ → E.G2) : Prop :=
  (∑ j ∈ range n, a j • y j) + (∑ i ∈ range m, x i • b i) + ∑ i ∈ range m, ∑ j ∈ range n, Γ i j • x i • y j = t
def SatQuadEqu (m n : ℕ) (a b : ℕ → E.Fr) (Γ : ℕ → ℕ → E.Fr) (t : E.Fr) (x y : ℕ → E.Fr) : Prop :=
  (∑ j ∈ range n, a j * y j) + (∑ i ∈ range m, x i * b i) + ∑ i ∈ range m, ∑ j ∈ range n, Γ i j * x i * y j = t

/-! ### The verification equation -/
def Ver (p q m n : ℕ) (A : ℕ → Com1 E) (B : ℕ → Com2 E) (Γ : ℕ → ℕ → E.Fr) (τ : ComT E)
    (u : ℕ → Com1 E) (v : ℕ → Com2 E) (c : ℕ → Com1 E) (d : ℕ → Com2 E) (π : ℕ → Com2 E) (θ : ℕ → Com1 E) : Prop :=
  (∑ j ∈ range n, pr (A j) (d j)) + (∑ i ∈ range m, pr (c i) (B i)) + ∑ i ∈ range m, pr (c i) (∑ j ∈ range n, Γ i j • d j)
    = τ + (∑ k ∈ range p, pr (u k) (π k)) + ∑ l ∈ range q, pr (θ l) (v l)

instance {p q m n A B Γ τ u v c d π θ} : Decidable (Ver (E := E) p q m n A B Γ τ u v c d π θ) := by unfold Ver; infer_instance

/-- the embedded equation -/
def GSat (m n : ℕ) (A : ℕ → Com1 E) (B : ℕ → Com2 E) (Γ : ℕ → ℕ → E.Fr) (τ : ComT E) (X : ℕ → Com1 E) (Y : ℕ → Com2 E) : Prop :=
  (∑ j ∈ range n, pr (A j) (Y j)) + (∑ i ∈ range m, pr (X i) (B i)) + ∑ i ∈ range m, pr (X i) (∑ j ∈ range n, Γ i j • Y j) = τ

def comX (p : ℕ) (u : ℕ → Com1 E) (X : ℕ → Com1 E) (R : ℕ → ℕ → E.Fr) (i : ℕ) : Com1 E := X i + ∑ k ∈ range p, R i k • u k
def comY (q : ℕ) (v : ℕ → Com2 E) (Y : ℕ → Com2 E) (S : ℕ → ℕ → E.Fr) (j : ℕ) : Com2 E := Y j + ∑ l ∈ range q, S j l • v l
def prfπ (q m n : ℕ) (B : ℕ → Com2 E) (Γ : ℕ → ℕ → E.Fr) (v : ℕ → Com2 E) (Y : ℕ → Com2 E) (R S T : ℕ → ℕ → E.Fr) (k : ℕ) : Com2 E :=
  (∑ i ∈ range m, R i k • B i) + (∑ j ∈ range n, (∑ i ∈ range m, R i k * Γ i j) • Y j)
    + ∑ l ∈ range q, ((∑ j ∈ range n, (∑ i ∈ range m, R i k * Γ i j) * S j l) - T l k) • v l
def prfθ (p m n : ℕ) (A : ℕ → Com1 E) (Γ : ℕ → ℕ → E.Fr) (u : ℕ → Com1 E) (X : ℕ → Com1 E) (S T : ℕ → ℕ → E.Fr) (l : ℕ) : Com1 E :=
  (∑ j ∈ range n, S j l • A j) + (∑ i ∈ range m, (∑ j ∈ range n, S j l * Γ i j) • X i) + ∑ k ∈ range p, T l k • u k

section bilin
variable {p q m n : ℕ} {A : ℕ → Com1 E} {B : ℕ → Com2 E} {Γ : ℕ → ℕ → E.Fr} {X : ℕ → Com1 E} {Y : ℕ → Com2 E}
  {u : ℕ → Com1 E} {v : ℕ → Com2 E} {R S T : ℕ → ℕ → E.Fr}
theorem bl1 : ∑ j ∈ range n, pr (A j) (∑ l ∈ range q, S j l • v l) = ∑ l ∈ range q, pr (∑ j ∈ range n, S j l • A j) (v l) := by
  simp only [pr_sum_left, pr_sum_right, pr_smul_left, pr_smul_right]; exact sum_comm
theorem bl2 : ∑ i ∈ range m, pr (∑ k ∈ range p, R i k • u k) (B i) = ∑ k ∈ range p, pr (u k) (∑ i ∈ range m, R i k • B i) := by
  simp only [pr_sum_left, pr_sum_right, pr_smul_left, pr_smul_right]; exact sum_comm
theorem bl3 : ∑ i ∈ range m, pr (X i) (∑ j ∈ range n, Γ i j • ∑ l ∈ range q, S j l • v l)
      = ∑ l ∈ range q, pr (∑ i ∈ range m, (∑ j ∈ range n, S j l * Γ i j) • X i) (v l) := by
  simp only [pr_sum_left, pr_sum_right, pr_smul_left, pr_smul_right, smul_sum, sum_smul, smul_smul]
  rw [sum_comm (s := range q)]
  refine sum_congr rfl fun i _ => ?_
  rw [sum_comm]
  exact sum_congr rfl fun _ _ => sum_congr rfl fun _ _ => by rw [mul_comm]
theorem bl4 : ∑ i ∈ range m, pr (∑ k ∈ range p, R i k • u k) (∑ j ∈ range n, Γ i j • Y j)
      = ∑ k ∈ range p, pr (u k) (∑ j ∈ range n, (∑ i ∈ range m, R i k * Γ i j) • Y j) := by
  calc _ = ∑ i ∈ range m, ∑ k ∈ range p, ∑ j ∈ range n, (R i k * Γ i j) • pr (u k) (Y j) := by
        refine sum_congr rfl fun i _ => ?_
        rw [pr_sum_left]
        refine sum_congr rfl fun k _ => ?_
        rw [pr_smul_left, pr_sum_right, smul_sum]
        exact sum_congr rfl fun j _ => by rw [pr_smul_right, smul_smul]
    _ = ∑ k ∈ range p, ∑ i ∈ range m, ∑ j ∈ range n, (R i k * Γ i j) • pr (u k) (Y j) := sum_comm
    _ = _ := by
        refine sum_congr rfl fun k _ => ?_
        rw [pr_sum_right, sum_comm]
        exact sum_congr rfl fun j _ => by rw [pr_smul_right, sum_smul]
theorem lin_swap {a : ℕ → E.Fr} : ∑ j ∈ range n, a j • ∑ l ∈ range q, S j l • v l = ∑ l ∈ range q, (∑ j ∈ range n, a j * S j l) • v l := by
  simp only [smul_sum, sum_smul, smul_smul]; exact sum_comm
theorem lin_swap1 {a : ℕ → E.Fr} : ∑ j ∈ range n, a j • ∑ l ∈ range q, S j l • u l = ∑ l ∈ range q, (∑ j ∈ range n, a j * S j l) • u l := by
  simp only [smul_sum, sum_smul, smul_smul]; exact sum_comm
theorem bl5 : ∑ i ∈ range m, pr (∑ k ∈ range p, R i k • u k) (∑ j ∈ range n, Γ i j • ∑ l ∈ range q, S j l • v l)
      = ∑ k ∈ range p, pr (u k) (∑ l ∈ range q, (∑ j ∈ range n, (∑ i ∈ range m, R i k * Γ i j) * S j l) • v l) := by
  rw [bl4]; exact sum_congr rfl fun k _ => by rw [lin_swap]
theorem bl6 : ∑ k ∈ range p, pr (u k) (∑ l ∈ range q, T l k • v l) = ∑ l ∈ range q, pr (∑ k ∈ range p, T l k • u k) (v l) := by
  simp only [pr_sum_left, pr_sum_right, pr_smul_left, pr_smul_right]; exact sum_comm
end bilin

/-- The two sides of the verification equation, for a proof made by the prover, differ exactly as the
two sides of the embedded equation do. -/
theorem ver_iff_gsat {p q m n : ℕ} {A : ℕ → Com1 E} {B : ℕ → Com2 E} {Γ : ℕ → ℕ → E.Fr} {τ : ComT E}
    {X : ℕ → Com1 E} {Y : ℕ → Com2 E} (u : ℕ → Com1 E) (v : ℕ → Com2 E) (R S T : ℕ → ℕ → E.Fr) :
    Ver p q m n A B Γ τ u v (comX p u X R) (comY q v Y S) (prfπ q m n B Γ v Y R S T) (prfθ p m n A Γ u X S T)
      ↔ GSat m n A B Γ τ X Y := by
  unfold Ver GSat comX comY prfπ prfθ
  simp only [pr_add_left, pr_add_right, smul_add, sum_add_distrib, sub_smul, sum_sub_distrib, pr_sub_right]
  rw [bl1 (A := A), bl2 (B := B), bl3 (X := X), bl4 (Y := Y), bl5, bl6 (u := u) (v := v) (T := T)]
  rw [← sub_eq_zero, ← sub_eq_zero (b := τ)]
  apply Eq.congr _ rfl
  abel

/-! ### Embeddings -/
theorem io1_add (x y : E.G1) : io1 (x + y) = io1 x + io1 y := by ext <;> simp [io1]
theorem io2_add (x y : E.G2) : io2 (x + y) = io2 x + io2 y := by ext <;> simp [io2]
theorem ioT_add (x y : E.GT) : ioT (x + y) = ioT x + ioT y := by ext <;> simp [ioT]
theorem io1_smul (c : E.Fr) (x : E.G1) : io1 (c • x) = c • io1 x := by ext <;> simp [io1]
theorem io2_smul (c : E.Fr) (x : E.G2) : io2 (c • x) = c • io2 x := by ext <;> simp [io2]
theorem io1_sum {ι : Type} (s : Finset ι) (f : ι → E.G1) : io1 (∑ i ∈ s, f i) = ∑ i ∈ s, io1 (f i) := by ext <;> simp [io1]
theorem io2_sum {ι : Type} (s : Finset ι) (f : ι → E.G2) : io2 (∑ i ∈ s, f i) = ∑ i ∈ s, io2 (f i) := by ext <;> simp [io2]
theorem ioT_sum {ι : Type} (s : Finset ι) (f : ι → E.GT) : ioT (∑ i ∈ s, f i) = ∑ i ∈ s, ioT (f i) := by ext <;> simp [ioT]
theorem io1_inj {x y : E.G1} : io1 x = io1 y ↔ x = y := by simp [io1]
theorem io2_inj {x y : E.G2} : io2 x = io2 y ↔ x = y := by simp [io2]
theorem ioT_inj {x y : E.GT} : ioT x = ioT y ↔ x = y := by simp [ioT]
theorem pr_io (x : E.G1) (y : E.G2) : pr (io1 x) (io2 y) = ioT (E.e x y) := by ext <;> simp [pr, io1, io2, ioT]

variable {m n : ℕ} {Γ : ℕ → ℕ → E.Fr}
theorem gsat_PPE {a : ℕ → E.G1} {b : ℕ → E.G2} {t : E.GT} {x : ℕ → E.G1} {y : ℕ → E.G2} :
    GSat m n (fun j => io1 (a j)) (fun i => io2 (b i)) Γ (ioT t) (fun i => io1 (x i)) (fun j => io2 (y j))
      ↔ SatPPE m n a b Γ t x y := by
  unfold GSat SatPPE
  simp only [pr_sum_right, pr_smul_right, pr_io, ← io2_smul, ← ioT_sum, ← ioT_add, ioT_inj, Env.e_smul_right]
theorem gsat_MSMEG1 {a : ℕ → E.G1} {b : ℕ → E.Fr} {t : E.G1} {x : ℕ → E.G1} {y : ℕ → E.Fr} {W : Com2 E}
    (h : SatMSMEG1 m n a b Γ t x y) :
    GSat m n (fun j => io1 (a j)) (fun i => b i • W) Γ (pr (io1 t) W) (fun i => io1 (x i)) (fun j => y j • W) := by
  unfold SatMSMEG1 at h
  subst h
  simp only [GSat, io1_add, io1_sum, io1_smul, pr_add_left, pr_sum_left, pr_sum_right, pr_smul_left, pr_smul_right]
theorem gsat_MSMEG2 {a : ℕ → E.Fr} {b : ℕ → E.G2} {t : E.G2} {x : ℕ → E.Fr} {y : ℕ → E.G2} {W : Com1 E}
    (h : SatMSMEG2 m n a b Γ t x y) :
    GSat m n (fun j => a j • W) (fun i => io2 (b i)) Γ (pr W (io2 t)) (fun i => x i • W) (fun j => io2 (y j)) := by
  unfold SatMSMEG2 at h
  subst h
  simp only [GSat, io2_add, io2_sum, io2_smul, pr_add_right, pr_sum_left, pr_sum_right, pr_smul_left, pr_smul_right]
theorem gsat_QuadEqu {a b : ℕ → E.Fr} {t : E.Fr} {x y : ℕ → E.Fr} {W : Com1 E} {W' : Com2 E}
    (h : SatQuadEqu m n a b Γ t x y) :
    GSat m n (fun j => a j • W) (fun i => b i • W') Γ (t • pr W W') (fun i => x i • W) (fun j => y j • W') := by
  unfold SatQuadEqu at h
  subst h
  simp only [GSat, pr_sum_left, pr_sum_right, pr_smul_left, pr_smul_right, add_smul, sum_smul, smul_sum, smul_smul, mul_comm, mul_assoc, mul_left_comm]

/-! ### Soundness -/
def dec1 (a : E.Fr) (c : Com1 E) : E.G1 := c.f1 - a • c.f0
def dec2 (a : E.Fr) (c : Com2 E) : E.G2 := c.f1 - a • c.f0
def decT (a a' : E.Fr) (z : ComT E) : E.GT := z.f3 - a • z.f1 - a' • z.f2 + (a * a') • z.f0
section dec
variable (a a' : E.Fr)
@[simp] theorem dec1_add (x y : Com1 E) : dec1 a (x + y) = dec1 a x + dec1 a y := by simp [dec1]; abel
@[simp] theorem dec2_add (x y : Com2 E) : dec2 a (x + y) = dec2 a x + dec2 a y := by simp [dec2]; abel
@[simp] theorem decT_add (x y : ComT E) : decT a a' (x + y) = decT a a' x + decT a a' y := by simp [decT]; abel
@[simp] theorem dec1_smul (c : E.Fr) (x : Com1 E) : dec1 a (c • x) = c • dec1 a x := by
  simp [dec1, smul_sub, smul_smul, mul_comm]
@[simp] theorem dec2_smul (c : E.Fr) (x : Com2 E) : dec2 a (c • x) = c • dec2 a x := by
  simp [dec2, smul_sub, smul_smul, mul_comm]
@[simp] theorem decT_smul (c : E.Fr) (x : ComT E) : decT a a' (c • x) = c • decT a a' x := by
  simp [decT, smul_sub, smul_smul, smul_add, mul_comm, mul_left_comm]
@[simp] theorem dec1_zero : dec1 a (0 : Com1 E) = 0 := by simp [dec1]
@[simp] theorem dec2_zero : dec2 a (0 : Com2 E) = 0 := by simp [dec2]
@[simp] theorem decT_zero : decT a a' (0 : ComT E) = 0 := by simp [decT]
@[simp] theorem dec1_sum {ι : Type} (s : Finset ι) (f : ι → Com1 E) : dec1 a (∑ i ∈ s, f i) = ∑ i ∈ s, dec1 a (f i) :=
  map_sum (⟨⟨dec1 a, dec1_zero a⟩, dec1_add a⟩ : Com1 E →+ E.G1) f s
@[simp] theorem dec2_sum {ι : Type} (s : Finset ι) (f : ι → Com2 E) : dec2 a (∑ i ∈ s, f i) = ∑ i ∈ s, dec2 a (f i) :=
  map_sum (⟨⟨dec2 a, dec2_zero a⟩, dec2_add a⟩ : Com2 E →+ E.G2) f s
@[simp] theorem decT_sum {ι : Type} (s : Finset ι) (f : ι → ComT E) : decT a a' (∑ i ∈ s, f i) = ∑ i ∈ s, decT a a' (f i) :=
  map_sum (⟨⟨decT a a', decT_zero a a'⟩, decT_add a a'⟩ : ComT E →+ E.GT) f s
@[simp] theorem decT_pr (x : Com1 E) (y : Com2 E) : decT a a' (pr x y) = E.e (dec1 a x) (dec2 a' y) := by
  simp only [decT, pr, dec1, dec2, Env.e_sub_left, Env.e_sub_right, Env.e_smul_left, Env.e_smul_right, smul_sub, smul_smul, mul_comm a']
  abel
@[simp] theorem dec1_io (x : E.G1) : dec1 a (io1 x) = x := by simp [dec1, io1]
@[simp] theorem dec2_io (x : E.G2) : dec2 a (io2 x) = x := by simp [dec2, io2]
@[simp] theorem decT_io (x : E.GT) : decT a a' (ioT x) = x := by simp [decT, ioT]
end dec

/-- the key elements as generated -/
def keyB1 (g : E.G1) (a t : E.Fr) : ℕ → Com1 E := sel2 ⟨g, a • g⟩ ⟨t • g, t • a • g⟩
def keyB2 (g : E.G2) (a t : E.Fr) : ℕ → Com2 E := sel2 ⟨g, a • g⟩ ⟨t • g, t • a • g⟩
theorem mkCrs_eq (p1 : E.G1) (p2 : E.G2) (a1 a2 t1 t2 : E.Fr) :
    mkCrs p1 p2 a1 a2 t1 t2 = ⟨vec 2 (keyB1 p1 a1 t1), vec 2 (keyB2 p2 a2 t2), p1, p2, E.e p1 p2⟩ := rfl
@[simp] theorem dec1_key (g : E.G1) (a t : E.Fr) (k : ℕ) : dec1 a (keyB1 g a t k) = 0 := by
  simp only [keyB1, sel2]; split <;> simp [dec1, smul_smul, mul_comm]
@[simp] theorem dec2_key (g : E.G2) (a t : E.Fr) (k : ℕ) : dec2 a (keyB2 g a t k) = 0 := by
  simp only [keyB2, sel2]; split <;> simp [dec2, smul_smul, mul_comm]
@[simp] theorem dec1_W (g : E.G1) (a t : E.Fr) : dec1 a (W1 (keyB1 g a t) g) = g := by simp [W1]
@[simp] theorem dec2_W (g : E.G2) (a t : E.Fr) : dec2 a (W2 (keyB2 g a t) g) = g := by simp [W2]

theorem ver_dec {p q : ℕ} {A : ℕ → Com1 E} {B : ℕ → Com2 E} {τ : ComT E} {u : ℕ → Com1 E} {v : ℕ → Com2 E}
    {c : ℕ → Com1 E} {d : ℕ → Com2 E} {π : ℕ → Com2 E} {θ : ℕ → Com1 E} (a a' : E.Fr)
    (hu : ∀ k, dec1 a (u k) = 0) (hv : ∀ k, dec2 a' (v k) = 0) (h : Ver p q m n A B Γ τ u v c d π θ) :
    (∑ j ∈ range n, E.e (dec1 a (A j)) (dec2 a' (d j))) + (∑ i ∈ range m, E.e (dec1 a (c i)) (dec2 a' (B i)))
      + ∑ i ∈ range m, ∑ j ∈ range n, Γ i j • E.e (dec1 a (c i)) (dec2 a' (d j)) = decT a a' τ := by
  have := congrArg (decT a a') h
  simpa [hu, hv, Env.e_sum_right] using this

section sound
variable {g : E.G1} {g' : E.G2} {a1 a2 t1 t2 : E.Fr} {c : ℕ → Com1 E} {d : ℕ → Com2 E} {π : ℕ → Com2 E} {θ : ℕ → Com1 E}
theorem sound_PPE {p q : ℕ} {a : ℕ → E.G1} {b : ℕ → E.G2} {t : E.GT}
    (h : Ver p q m n (fun j => io1 (a j)) (fun i => io2 (b i)) Γ (ioT t) (keyB1 g a1 t1) (keyB2 g' a2 t2) c d π θ) :
    SatPPE m n a b Γ t (fun i => dec1 a1 (c i)) (fun j => dec2 a2 (d j)) := by
  simpa [SatPPE] using ver_dec a1 a2 (dec1_key g a1 t1) (dec2_key g' a2 t2) h
theorem sound_MSMEG1 {p q : ℕ} {a : ℕ → E.G1} {b : ℕ → E.Fr} {t : E.G1} {y : ℕ → E.Fr} (hg : g' ≠ 0)
    (hy : ∀ j, j < n → dec2 a2 (d j) = y j • g')
    (h : Ver p q m n (fun j => io1 (a j)) (fun i => b i • W2 (keyB2 g' a2 t2) g') Γ (pr (io1 t) (W2 (keyB2 g' a2 t2) g'))
      (keyB1 g a1 t1) (keyB2 g' a2 t2) c d π θ) :
    SatMSMEG1 m n a b Γ t (fun i => dec1 a1 (c i)) y := by
  have := ver_dec a1 a2 (dec1_key g a1 t1) (dec2_key g' a2 t2) h
  rw [sum_congr rfl (fun j hj => by rw [hy j (by simpa using hj)]),
    sum_congr (s₁ := range m) rfl (fun i _ => sum_congr rfl (fun j hj => by rw [hy j (by simpa using hj)]))] at this
  simp only [dec1_io, dec2_smul, dec2_W, decT_pr, ← Env.e_smul_left, Env.e_smul_right, ← Env.e_sum_left, ← Env.e_add_left] at this
  rw [← sub_eq_zero, ← Env.e_sub_left] at this
  exact sub_eq_zero.mp ((E.e_nondeg _ _ this).resolve_right hg)
theorem sound_MSMEG2 {p q : ℕ} {a : ℕ → E.Fr} {b : ℕ → E.G2} {t : E.G2} {x : ℕ → E.Fr} (hg : g ≠ 0)
    (hx : ∀ i, i < m → dec1 a1 (c i) = x i • g)
    (h : Ver p q m n (fun j => a j • W1 (keyB1 g a1 t1) g) (fun i => io2 (b i)) Γ (pr (W1 (keyB1 g a1 t1) g) (io2 t))
      (keyB1 g a1 t1) (keyB2 g' a2 t2) c d π θ) :
    SatMSMEG2 m n a b Γ t x (fun j => dec2 a2 (d j)) := by
  have := ver_dec a1 a2 (dec1_key g a1 t1) (dec2_key g' a2 t2) h
  rw [sum_congr (s₁ := range m) rfl (fun i hi => by rw [hx i (by simpa using hi)]),
    sum_congr (s₁ := range m) rfl (fun i hi => sum_congr rfl (fun j _ => by rw [hx i (by simpa using hi)]))] at this
  simp only [dec2_io, dec1_smul, dec1_W, decT_pr, ← Env.e_smul_right, Env.e_smul_left, ← Env.e_sum_right, ← Env.e_add_right] at this
  rw [← sub_eq_zero, ← Env.e_sub_right] at this
  exact sub_eq_zero.mp ((E.e_nondeg _ _ this).resolve_left hg)
theorem sound_QuadEqu {p q : ℕ} {a b : ℕ → E.Fr} {t : E.Fr} {x y : ℕ → E.Fr} (hg : g ≠ 0) (hg' : g' ≠ 0)
    (hx : ∀ i, i < m → dec1 a1 (c i) = x i • g) (hy : ∀ j, j < n → dec2 a2 (d j) = y j • g')
    (h : Ver p q m n (fun j => a j • W1 (keyB1 g a1 t1) g) (fun i => b i • W2 (keyB2 g' a2 t2) g') Γ
      (t • pr (W1 (keyB1 g a1 t1) g) (W2 (keyB2 g' a2 t2) g')) (keyB1 g a1 t1) (keyB2 g' a2 t2) c d π θ) :
    SatQuadEqu m n a b Γ t x y := by
  have := ver_dec a1 a2 (dec1_key g a1 t1) (dec2_key g' a2 t2) h
  rw [sum_congr rfl (fun j hj => by rw [hy j (by simpa using hj)]),
    sum_congr (s₁ := range m) rfl (fun i hi => by rw [hx i (by simpa using hi)]),
    sum_congr (s₁ := range m) rfl (fun i hi => sum_congr rfl (fun j hj => by rw [hx i (by simpa using hi), hy j (by simpa using hj)]))] at this
  simp only [dec1_smul, dec2_smul, dec1_W, dec2_W, decT_pr, decT_smul, Env.e_smul_left, Env.e_smul_right, smul_smul, ← sum_smul, ← add_smul] at this
  rw [← sub_eq_zero, ← sub_smul] at this
  have h0 : E.e g g' ≠ 0 := fun h => (E.e_nondeg _ _ h).elim hg hg'
  have := (smul_eq_zero.mp this).resolve_right h0
  rw [SatQuadEqu, ← sub_eq_zero, ← this]
  congr 1
  simp only [mul_assoc, mul_comm, mul_left_comm]
end sound
end Gsv
