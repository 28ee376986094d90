import Gsv.Env
set_option linter.all false

/-! Loops that fill or update the entries of a matrix (or list) that already has its final shape.
`itn n B z` is the state after `n` iterations of a loop whose `i`-th iteration turns the entries `y` into `B i y`. -/
namespace Gsv
open Res
variable {α β σ : Type}

def itn {σ : Type} (n : ℕ) (B : ℕ → σ → σ) (s : σ) : σ := Nat.rec s (fun i y => B i y) n
theorem itn_inv {n : ℕ} {B : ℕ → σ → σ} {s w : σ} (I : ℕ → σ) (h0 : I 0 = s) (h : ∀ i, i < n → B i (I i) = I (i+1))
    (hw : I n = w) : itn n B s = w := by
  subst h0; subst hw
  induction n with
  | zero => rfl
  | succ k ih =>
    show B k (itn k B (I 0)) = _
    rw [ih (fun i hi => h i (by omega)), h k (by omega)]
theorem iterR_itn2 {m c n : ℕ} {z : ℕ → ℕ → α} {F : ℕ → List (List α) → Res (List (List α))} (B : ℕ → (ℕ → ℕ → α) → ℕ → ℕ → α)
    (h : ∀ i (y : ℕ → ℕ → α), i < n → F i (vec m fun a => vec c fun b => y a b) = ok (vec m fun a => vec c fun b => B i y a b)) :
    iterR n (vec m fun a => vec c fun b => z a b) F = ok (vec m fun a => vec c fun b => itn n B z a b) := by
  induction n with
  | zero => rfl
  | succ k ih =>
    have := ih (fun i y hi => h i y (by omega))
    rw [iterR_succ, this, bind_ok, h k _ (by omega)]; rfl
theorem iterR_itn1 {m n : ℕ} {z : ℕ → α} {F : ℕ → List α → Res (List α)} (B : ℕ → (ℕ → α) → ℕ → α)
    (h : ∀ i (y : ℕ → α), i < n → F i (vec m fun a => y a) = ok (vec m fun a => B i y a)) :
    iterR n (vec m fun a => z a) F = ok (vec m fun a => itn n B z a) := by
  induction n with
  | zero => rfl
  | succ k ih =>
    have := ih (fun i y hi => h i y (by omega))
    rw [iterR_succ, this, bind_ok, h k _ (by omega)]; rfl
theorem bind_itn2 {m c n : ℕ} {z : ℕ → ℕ → α} {F : ℕ → List (List α) → Res (List (List α))} {K : List (List α) → Res β} {r : Res β}
    (B : ℕ → (ℕ → ℕ → α) → ℕ → ℕ → α)
    (h : ∀ i (y : ℕ → ℕ → α), i < n → F i (vec m fun a => vec c fun b => y a b) = ok (vec m fun a => vec c fun b => B i y a b))
    (hk : K (vec m fun a => vec c fun b => itn n B z a b) = r) :
    bind (iterR n (vec m fun a => vec c fun b => z a b) F) K = r := by rw [iterR_itn2 B h, bind_ok, hk]
theorem bind_itn1 {m n : ℕ} {z : ℕ → α} {F : ℕ → List α → Res (List α)} {K : List α → Res β} {r : Res β}
    (B : ℕ → (ℕ → α) → ℕ → α)
    (h : ∀ i (y : ℕ → α), i < n → F i (vec m fun a => y a) = ok (vec m fun a => B i y a))
    (hk : K (vec m fun a => itn n B z a) = r) :
    bind (iterR n (vec m fun a => z a) F) K = r := by rw [iterR_itn1 B h, bind_ok, hk]

theorem ite_vec (p : Prop) [Decidable p] (n : ℕ) (x y : ℕ → α) :
    (if p then vec n x else vec n y) = vec n fun j => if p then x j else y j := by split <;> rfl
theorem upd2_acc {M : Type} [AddCommMonoid M] (y : ℕ → ℕ → M) (v : M) (a b i j : ℕ) :
    (if a = i then (if b = j then y i j + v else y i b) else y a b) = if a = i ∧ b = j then y a b + v else y a b := by
  by_cases h1 : a = i
  · subst h1; by_cases h2 : b = j
    · subst h2; simp [add_comm, mul_comm]
    · simp [h2]
  · simp [h1]
theorem upd2_acc' {M : Type} [AddCommMonoid M] (y : ℕ → ℕ → M) (v : M) (a b i j : ℕ) :
    (if a = i then (if b = j then v + y i j else y i b) else y a b) = if a = i ∧ b = j then y a b + v else y a b := by
  by_cases h1 : a = i
  · subst h1; by_cases h2 : b = j
    · subst h2; simp [add_comm, mul_comm]
    · simp [h2]
  · simp [h1]
theorem upd2_sub {M : Type} [AddCommGroup M] (y : ℕ → ℕ → M) (v : M) (a b i j : ℕ) :
    (if a = i then (if b = j then y i j - v else y i b) else y a b) = if a = i ∧ b = j then y a b - v else y a b := by
  by_cases h1 : a = i
  · subst h1; by_cases h2 : b = j
    · subst h2; simp [add_comm, mul_comm]
    · simp [h2]
  · simp [h1]
theorem upd2_smul {R M : Type} [SMul R M] (y : ℕ → ℕ → M) (v : R) (a b i j : ℕ) :
    (if a = i then (if b = j then v • y i j else y i b) else y a b) = if a = i ∧ b = j then v • y a b else y a b := by
  by_cases h1 : a = i
  · subst h1; by_cases h2 : b = j
    · subst h2; simp [add_comm, mul_comm]
    · simp [h2]
  · simp [h1]
theorem upd2_mul {M : Type} [CommMonoid M] (y : ℕ → ℕ → M) (v : M) (a b i j : ℕ) :
    (if a = i then (if b = j then v * y i j else y i b) else y a b) = if a = i ∧ b = j then v * y a b else y a b := by
  by_cases h1 : a = i
  · subst h1; by_cases h2 : b = j
    · subst h2; simp [add_comm, mul_comm]
    · simp [h2]
  · simp [h1]
theorem upd2_mul' {M : Type} [CommMonoid M] (y : ℕ → ℕ → M) (v : M) (a b i j : ℕ) :
    (if a = i then (if b = j then y i j * v else y i b) else y a b) = if a = i ∧ b = j then v * y a b else y a b := by
  by_cases h1 : a = i
  · subst h1; by_cases h2 : b = j
    · subst h2; simp [add_comm, mul_comm]
    · simp [h2]
  · simp [h1]
theorem upd2_neg {M : Type} [Neg M] (y : ℕ → ℕ → M) (a b i j : ℕ) :
    (if a = i then (if b = j then -y i j else y i b) else y a b) = if a = i ∧ b = j then -y a b else y a b := by
  by_cases h1 : a = i
  · subst h1; by_cases h2 : b = j
    · subst h2; simp [add_comm, mul_comm]
    · simp [h2]
  · simp [h1]
theorem upd2_set (y : ℕ → ℕ → α) (v : α) (a b i j : ℕ) :
    (if a = i then (if b = j then v else y i b) else y a b) = if a = i ∧ b = j then v else y a b := by
  by_cases h1 : a = i
  · subst h1; by_cases h2 : b = j <;> simp [h2]
  · simp [h1]
theorem itn2_set_a (n : ℕ)  (v : ℕ → ℕ → ℕ → α) (z : ℕ → ℕ → α) :
    itn n (fun i y a b => if a = i then v i a b else y a b) z = fun a b => if a < n then v a a b else z a b := by
  refine itn_inv (fun k a b => if a < k then v a a b else z a b) ?_ ?_ rfl
  · funext a b; simp
  · intro i hi; funext a b
    by_cases h : a = i
    · subst h; simp
    · have : (a < i + 1) = (a < i) := by apply propext; omega
      simp [h, this]
theorem itn2_set_ka (n : ℕ) (P : ℕ → ℕ → Prop) [inst : ∀ a b, Decidable (P a b)]  (v : ℕ → ℕ → ℕ → α) (z : ℕ → ℕ → α) :
    itn n (fun i y a b => if a = i ∧ P a b then v i a b else y a b) z = fun a b => if a < n ∧ P a b then v a a b else z a b := by
  refine itn_inv (fun k a b => if a < k ∧ P a b then v a a b else z a b) ?_ ?_ rfl
  · funext a b; simp
  · intro i hi; funext a b
    by_cases h : a = i
    · subst h; by_cases h' : P a b <;> simp [h']
    · have : (a < i + 1) = (a < i) := by apply propext; omega
      simp [h, this]
theorem itn2_set_ak (n : ℕ) (P : ℕ → ℕ → Prop) [inst : ∀ a b, Decidable (P a b)]  (v : ℕ → ℕ → ℕ → α) (z : ℕ → ℕ → α) :
    itn n (fun i y a b => if P a b ∧ a = i then v i a b else y a b) z = fun a b => if P a b ∧ a < n then v a a b else z a b := by
  refine itn_inv (fun k a b => if P a b ∧ a < k then v a a b else z a b) ?_ ?_ rfl
  · funext a b; simp
  · intro i hi; funext a b
    by_cases h : a = i
    · subst h; by_cases h' : P a b <;> simp [h']
    · have : (a < i + 1) = (a < i) := by apply propext; omega
      simp [h, this]
theorem itn2_set_b (n : ℕ)  (v : ℕ → ℕ → ℕ → α) (z : ℕ → ℕ → α) :
    itn n (fun i y a b => if b = i then v i a b else y a b) z = fun a b => if b < n then v b a b else z a b := by
  refine itn_inv (fun k a b => if b < k then v b a b else z a b) ?_ ?_ rfl
  · funext a b; simp
  · intro i hi; funext a b
    by_cases h : b = i
    · subst h; simp
    · have : (b < i + 1) = (b < i) := by apply propext; omega
      simp [h, this]
theorem itn2_set_kb (n : ℕ) (P : ℕ → ℕ → Prop) [inst : ∀ a b, Decidable (P a b)]  (v : ℕ → ℕ → ℕ → α) (z : ℕ → ℕ → α) :
    itn n (fun i y a b => if b = i ∧ P a b then v i a b else y a b) z = fun a b => if b < n ∧ P a b then v b a b else z a b := by
  refine itn_inv (fun k a b => if b < k ∧ P a b then v b a b else z a b) ?_ ?_ rfl
  · funext a b; simp
  · intro i hi; funext a b
    by_cases h : b = i
    · subst h; by_cases h' : P a b <;> simp [h']
    · have : (b < i + 1) = (b < i) := by apply propext; omega
      simp [h, this]
theorem itn2_set_bk (n : ℕ) (P : ℕ → ℕ → Prop) [inst : ∀ a b, Decidable (P a b)]  (v : ℕ → ℕ → ℕ → α) (z : ℕ → ℕ → α) :
    itn n (fun i y a b => if P a b ∧ b = i then v i a b else y a b) z = fun a b => if P a b ∧ b < n then v b a b else z a b := by
  refine itn_inv (fun k a b => if P a b ∧ b < k then v b a b else z a b) ?_ ?_ rfl
  · funext a b; simp
  · intro i hi; funext a b
    by_cases h : b = i
    · subst h; by_cases h' : P a b <;> simp [h']
    · have : (b < i + 1) = (b < i) := by apply propext; omega
      simp [h, this]
theorem itn2_acc_a {M : Type} [AddCommMonoid M] (n : ℕ)  (v : ℕ → ℕ → ℕ → M) (z : ℕ → ℕ → M) :
    itn n (fun i y a b => if a = i then y a b + v i a b else y a b) z = fun a b => if a < n then z a b + v a a b else z a b := by
  refine itn_inv (fun k a b => if a < k then z a b + v a a b else z a b) ?_ ?_ rfl
  · funext a b; simp
  · intro i hi; funext a b
    by_cases h : a = i
    · subst h; simp
    · have : (a < i + 1) = (a < i) := by apply propext; omega
      simp [h, this]
theorem itn2_acc_ka {M : Type} [AddCommMonoid M] (n : ℕ) (P : ℕ → ℕ → Prop) [inst : ∀ a b, Decidable (P a b)]  (v : ℕ → ℕ → ℕ → M) (z : ℕ → ℕ → M) :
    itn n (fun i y a b => if a = i ∧ P a b then y a b + v i a b else y a b) z = fun a b => if a < n ∧ P a b then z a b + v a a b else z a b := by
  refine itn_inv (fun k a b => if a < k ∧ P a b then z a b + v a a b else z a b) ?_ ?_ rfl
  · funext a b; simp
  · intro i hi; funext a b
    by_cases h : a = i
    · subst h; by_cases h' : P a b <;> simp [h']
    · have : (a < i + 1) = (a < i) := by apply propext; omega
      simp [h, this]
theorem itn2_acc_ak {M : Type} [AddCommMonoid M] (n : ℕ) (P : ℕ → ℕ → Prop) [inst : ∀ a b, Decidable (P a b)]  (v : ℕ → ℕ → ℕ → M) (z : ℕ → ℕ → M) :
    itn n (fun i y a b => if P a b ∧ a = i then y a b + v i a b else y a b) z = fun a b => if P a b ∧ a < n then z a b + v a a b else z a b := by
  refine itn_inv (fun k a b => if P a b ∧ a < k then z a b + v a a b else z a b) ?_ ?_ rfl
  · funext a b; simp
  · intro i hi; funext a b
    by_cases h : a = i
    · subst h; by_cases h' : P a b <;> simp [h']
    · have : (a < i + 1) = (a < i) := by apply propext; omega
      simp [h, this]
theorem itn2_acc_b {M : Type} [AddCommMonoid M] (n : ℕ)  (v : ℕ → ℕ → ℕ → M) (z : ℕ → ℕ → M) :
    itn n (fun i y a b => if b = i then y a b + v i a b else y a b) z = fun a b => if b < n then z a b + v b a b else z a b := by
  refine itn_inv (fun k a b => if b < k then z a b + v b a b else z a b) ?_ ?_ rfl
  · funext a b; simp
  · intro i hi; funext a b
    by_cases h : b = i
    · subst h; simp
    · have : (b < i + 1) = (b < i) := by apply propext; omega
      simp [h, this]
theorem itn2_acc_kb {M : Type} [AddCommMonoid M] (n : ℕ) (P : ℕ → ℕ → Prop) [inst : ∀ a b, Decidable (P a b)]  (v : ℕ → ℕ → ℕ → M) (z : ℕ → ℕ → M) :
    itn n (fun i y a b => if b = i ∧ P a b then y a b + v i a b else y a b) z = fun a b => if b < n ∧ P a b then z a b + v b a b else z a b := by
  refine itn_inv (fun k a b => if b < k ∧ P a b then z a b + v b a b else z a b) ?_ ?_ rfl
  · funext a b; simp
  · intro i hi; funext a b
    by_cases h : b = i
    · subst h; by_cases h' : P a b <;> simp [h']
    · have : (b < i + 1) = (b < i) := by apply propext; omega
      simp [h, this]
theorem itn2_acc_bk {M : Type} [AddCommMonoid M] (n : ℕ) (P : ℕ → ℕ → Prop) [inst : ∀ a b, Decidable (P a b)]  (v : ℕ → ℕ → ℕ → M) (z : ℕ → ℕ → M) :
    itn n (fun i y a b => if P a b ∧ b = i then y a b + v i a b else y a b) z = fun a b => if P a b ∧ b < n then z a b + v b a b else z a b := by
  refine itn_inv (fun k a b => if P a b ∧ b < k then z a b + v b a b else z a b) ?_ ?_ rfl
  · funext a b; simp
  · intro i hi; funext a b
    by_cases h : b = i
    · subst h; by_cases h' : P a b <;> simp [h']
    · have : (b < i + 1) = (b < i) := by apply propext; omega
      simp [h, this]
theorem itn2_sub_a {M : Type} [AddCommGroup M] (n : ℕ)  (v : ℕ → ℕ → ℕ → M) (z : ℕ → ℕ → M) :
    itn n (fun i y a b => if a = i then y a b - v i a b else y a b) z = fun a b => if a < n then z a b - v a a b else z a b := by
  refine itn_inv (fun k a b => if a < k then z a b - v a a b else z a b) ?_ ?_ rfl
  · funext a b; simp
  · intro i hi; funext a b
    by_cases h : a = i
    · subst h; simp
    · have : (a < i + 1) = (a < i) := by apply propext; omega
      simp [h, this]
theorem itn2_sub_ka {M : Type} [AddCommGroup M] (n : ℕ) (P : ℕ → ℕ → Prop) [inst : ∀ a b, Decidable (P a b)]  (v : ℕ → ℕ → ℕ → M) (z : ℕ → ℕ → M) :
    itn n (fun i y a b => if a = i ∧ P a b then y a b - v i a b else y a b) z = fun a b => if a < n ∧ P a b then z a b - v a a b else z a b := by
  refine itn_inv (fun k a b => if a < k ∧ P a b then z a b - v a a b else z a b) ?_ ?_ rfl
  · funext a b; simp
  · intro i hi; funext a b
    by_cases h : a = i
    · subst h; by_cases h' : P a b <;> simp [h']
    · have : (a < i + 1) = (a < i) := by apply propext; omega
      simp [h, this]
theorem itn2_sub_ak {M : Type} [AddCommGroup M] (n : ℕ) (P : ℕ → ℕ → Prop) [inst : ∀ a b, Decidable (P a b)]  (v : ℕ → ℕ → ℕ → M) (z : ℕ → ℕ → M) :
    itn n (fun i y a b => if P a b ∧ a = i then y a b - v i a b else y a b) z = fun a b => if P a b ∧ a < n then z a b - v a a b else z a b := by
  refine itn_inv (fun k a b => if P a b ∧ a < k then z a b - v a a b else z a b) ?_ ?_ rfl
  · funext a b; simp
  · intro i hi; funext a b
    by_cases h : a = i
    · subst h; by_cases h' : P a b <;> simp [h']
    · have : (a < i + 1) = (a < i) := by apply propext; omega
      simp [h, this]
theorem itn2_sub_b {M : Type} [AddCommGroup M] (n : ℕ)  (v : ℕ → ℕ → ℕ → M) (z : ℕ → ℕ → M) :
    itn n (fun i y a b => if b = i then y a b - v i a b else y a b) z = fun a b => if b < n then z a b - v b a b else z a b := by
  refine itn_inv (fun k a b => if b < k then z a b - v b a b else z a b) ?_ ?_ rfl
  · funext a b; simp
  · intro i hi; funext a b
    by_cases h : b = i
    · subst h; simp
    · have : (b < i + 1) = (b < i) := by apply propext; omega
      simp [h, this]
theorem itn2_sub_kb {M : Type} [AddCommGroup M] (n : ℕ) (P : ℕ → ℕ → Prop) [inst : ∀ a b, Decidable (P a b)]  (v : ℕ → ℕ → ℕ → M) (z : ℕ → ℕ → M) :
    itn n (fun i y a b => if b = i ∧ P a b then y a b - v i a b else y a b) z = fun a b => if b < n ∧ P a b then z a b - v b a b else z a b := by
  refine itn_inv (fun k a b => if b < k ∧ P a b then z a b - v b a b else z a b) ?_ ?_ rfl
  · funext a b; simp
  · intro i hi; funext a b
    by_cases h : b = i
    · subst h; by_cases h' : P a b <;> simp [h']
    · have : (b < i + 1) = (b < i) := by apply propext; omega
      simp [h, this]
theorem itn2_sub_bk {M : Type} [AddCommGroup M] (n : ℕ) (P : ℕ → ℕ → Prop) [inst : ∀ a b, Decidable (P a b)]  (v : ℕ → ℕ → ℕ → M) (z : ℕ → ℕ → M) :
    itn n (fun i y a b => if P a b ∧ b = i then y a b - v i a b else y a b) z = fun a b => if P a b ∧ b < n then z a b - v b a b else z a b := by
  refine itn_inv (fun k a b => if P a b ∧ b < k then z a b - v b a b else z a b) ?_ ?_ rfl
  · funext a b; simp
  · intro i hi; funext a b
    by_cases h : b = i
    · subst h; by_cases h' : P a b <;> simp [h']
    · have : (b < i + 1) = (b < i) := by apply propext; omega
      simp [h, this]
theorem itn2_smul_a {R M : Type} [SMul R M] (n : ℕ)  (v : ℕ → ℕ → ℕ → R) (z : ℕ → ℕ → M) :
    itn n (fun i y a b => if a = i then v i a b • y a b else y a b) z = fun a b => if a < n then v a a b • z a b else z a b := by
  refine itn_inv (fun k a b => if a < k then v a a b • z a b else z a b) ?_ ?_ rfl
  · funext a b; simp
  · intro i hi; funext a b
    by_cases h : a = i
    · subst h; simp
    · have : (a < i + 1) = (a < i) := by apply propext; omega
      simp [h, this]
theorem itn2_smul_ka {R M : Type} [SMul R M] (n : ℕ) (P : ℕ → ℕ → Prop) [inst : ∀ a b, Decidable (P a b)]  (v : ℕ → ℕ → ℕ → R) (z : ℕ → ℕ → M) :
    itn n (fun i y a b => if a = i ∧ P a b then v i a b • y a b else y a b) z = fun a b => if a < n ∧ P a b then v a a b • z a b else z a b := by
  refine itn_inv (fun k a b => if a < k ∧ P a b then v a a b • z a b else z a b) ?_ ?_ rfl
  · funext a b; simp
  · intro i hi; funext a b
    by_cases h : a = i
    · subst h; by_cases h' : P a b <;> simp [h']
    · have : (a < i + 1) = (a < i) := by apply propext; omega
      simp [h, this]
theorem itn2_smul_ak {R M : Type} [SMul R M] (n : ℕ) (P : ℕ → ℕ → Prop) [inst : ∀ a b, Decidable (P a b)]  (v : ℕ → ℕ → ℕ → R) (z : ℕ → ℕ → M) :
    itn n (fun i y a b => if P a b ∧ a = i then v i a b • y a b else y a b) z = fun a b => if P a b ∧ a < n then v a a b • z a b else z a b := by
  refine itn_inv (fun k a b => if P a b ∧ a < k then v a a b • z a b else z a b) ?_ ?_ rfl
  · funext a b; simp
  · intro i hi; funext a b
    by_cases h : a = i
    · subst h; by_cases h' : P a b <;> simp [h']
    · have : (a < i + 1) = (a < i) := by apply propext; omega
      simp [h, this]
theorem itn2_smul_b {R M : Type} [SMul R M] (n : ℕ)  (v : ℕ → ℕ → ℕ → R) (z : ℕ → ℕ → M) :
    itn n (fun i y a b => if b = i then v i a b • y a b else y a b) z = fun a b => if b < n then v b a b • z a b else z a b := by
  refine itn_inv (fun k a b => if b < k then v b a b • z a b else z a b) ?_ ?_ rfl
  · funext a b; simp
  · intro i hi; funext a b
    by_cases h : b = i
    · subst h; simp
    · have : (b < i + 1) = (b < i) := by apply propext; omega
      simp [h, this]
theorem itn2_smul_kb {R M : Type} [SMul R M] (n : ℕ) (P : ℕ → ℕ → Prop) [inst : ∀ a b, Decidable (P a b)]  (v : ℕ → ℕ → ℕ → R) (z : ℕ → ℕ → M) :
    itn n (fun i y a b => if b = i ∧ P a b then v i a b • y a b else y a b) z = fun a b => if b < n ∧ P a b then v b a b • z a b else z a b := by
  refine itn_inv (fun k a b => if b < k ∧ P a b then v b a b • z a b else z a b) ?_ ?_ rfl
  · funext a b; simp
  · intro i hi; funext a b
    by_cases h : b = i
    · subst h; by_cases h' : P a b <;> simp [h']
    · have : (b < i + 1) = (b < i) := by apply propext; omega
      simp [h, this]
theorem itn2_smul_bk {R M : Type} [SMul R M] (n : ℕ) (P : ℕ → ℕ → Prop) [inst : ∀ a b, Decidable (P a b)]  (v : ℕ → ℕ → ℕ → R) (z : ℕ → ℕ → M) :
    itn n (fun i y a b => if P a b ∧ b = i then v i a b • y a b else y a b) z = fun a b => if P a b ∧ b < n then v b a b • z a b else z a b := by
  refine itn_inv (fun k a b => if P a b ∧ b < k then v b a b • z a b else z a b) ?_ ?_ rfl
  · funext a b; simp
  · intro i hi; funext a b
    by_cases h : b = i
    · subst h; by_cases h' : P a b <;> simp [h']
    · have : (b < i + 1) = (b < i) := by apply propext; omega
      simp [h, this]
theorem itn2_mul_a {M : Type} [CommMonoid M] (n : ℕ)  (v : ℕ → ℕ → ℕ → M) (z : ℕ → ℕ → M) :
    itn n (fun i y a b => if a = i then v i a b * y a b else y a b) z = fun a b => if a < n then v a a b * z a b else z a b := by
  refine itn_inv (fun k a b => if a < k then v a a b * z a b else z a b) ?_ ?_ rfl
  · funext a b; simp
  · intro i hi; funext a b
    by_cases h : a = i
    · subst h; simp
    · have : (a < i + 1) = (a < i) := by apply propext; omega
      simp [h, this]
theorem itn2_mul_ka {M : Type} [CommMonoid M] (n : ℕ) (P : ℕ → ℕ → Prop) [inst : ∀ a b, Decidable (P a b)]  (v : ℕ → ℕ → ℕ → M) (z : ℕ → ℕ → M) :
    itn n (fun i y a b => if a = i ∧ P a b then v i a b * y a b else y a b) z = fun a b => if a < n ∧ P a b then v a a b * z a b else z a b := by
  refine itn_inv (fun k a b => if a < k ∧ P a b then v a a b * z a b else z a b) ?_ ?_ rfl
  · funext a b; simp
  · intro i hi; funext a b
    by_cases h : a = i
    · subst h; by_cases h' : P a b <;> simp [h']
    · have : (a < i + 1) = (a < i) := by apply propext; omega
      simp [h, this]
theorem itn2_mul_ak {M : Type} [CommMonoid M] (n : ℕ) (P : ℕ → ℕ → Prop) [inst : ∀ a b, Decidable (P a b)]  (v : ℕ → ℕ → ℕ → M) (z : ℕ → ℕ → M) :
    itn n (fun i y a b => if P a b ∧ a = i then v i a b * y a b else y a b) z = fun a b => if P a b ∧ a < n then v a a b * z a b else z a b := by
  refine itn_inv (fun k a b => if P a b ∧ a < k then v a a b * z a b else z a b) ?_ ?_ rfl
  · funext a b; simp
  · intro i hi; funext a b
    by_cases h : a = i
    · subst h; by_cases h' : P a b <;> simp [h']
    · have : (a < i + 1) = (a < i) := by apply propext; omega
      simp [h, this]
theorem itn2_mul_b {M : Type} [CommMonoid M] (n : ℕ)  (v : ℕ → ℕ → ℕ → M) (z : ℕ → ℕ → M) :
    itn n (fun i y a b => if b = i then v i a b * y a b else y a b) z = fun a b => if b < n then v b a b * z a b else z a b := by
  refine itn_inv (fun k a b => if b < k then v b a b * z a b else z a b) ?_ ?_ rfl
  · funext a b; simp
  · intro i hi; funext a b
    by_cases h : b = i
    · subst h; simp
    · have : (b < i + 1) = (b < i) := by apply propext; omega
      simp [h, this]
theorem itn2_mul_kb {M : Type} [CommMonoid M] (n : ℕ) (P : ℕ → ℕ → Prop) [inst : ∀ a b, Decidable (P a b)]  (v : ℕ → ℕ → ℕ → M) (z : ℕ → ℕ → M) :
    itn n (fun i y a b => if b = i ∧ P a b then v i a b * y a b else y a b) z = fun a b => if b < n ∧ P a b then v b a b * z a b else z a b := by
  refine itn_inv (fun k a b => if b < k ∧ P a b then v b a b * z a b else z a b) ?_ ?_ rfl
  · funext a b; simp
  · intro i hi; funext a b
    by_cases h : b = i
    · subst h; by_cases h' : P a b <;> simp [h']
    · have : (b < i + 1) = (b < i) := by apply propext; omega
      simp [h, this]
theorem itn2_mul_bk {M : Type} [CommMonoid M] (n : ℕ) (P : ℕ → ℕ → Prop) [inst : ∀ a b, Decidable (P a b)]  (v : ℕ → ℕ → ℕ → M) (z : ℕ → ℕ → M) :
    itn n (fun i y a b => if P a b ∧ b = i then v i a b * y a b else y a b) z = fun a b => if P a b ∧ b < n then v b a b * z a b else z a b := by
  refine itn_inv (fun k a b => if P a b ∧ b < k then v b a b * z a b else z a b) ?_ ?_ rfl
  · funext a b; simp
  · intro i hi; funext a b
    by_cases h : b = i
    · subst h; by_cases h' : P a b <;> simp [h']
    · have : (b < i + 1) = (b < i) := by apply propext; omega
      simp [h, this]
theorem itn2_neg_a {M : Type} [Neg M] (n : ℕ)  (z : ℕ → ℕ → M) :
    itn n (fun i y a b => if a = i then -y a b else y a b) z = fun a b => if a < n then -z a b else z a b := by
  refine itn_inv (fun k a b => if a < k then -z a b else z a b) ?_ ?_ rfl
  · funext a b; simp
  · intro i hi; funext a b
    by_cases h : a = i
    · subst h; simp
    · have : (a < i + 1) = (a < i) := by apply propext; omega
      simp [h, this]
theorem itn2_neg_ka {M : Type} [Neg M] (n : ℕ) (P : ℕ → ℕ → Prop) [inst : ∀ a b, Decidable (P a b)]  (z : ℕ → ℕ → M) :
    itn n (fun i y a b => if a = i ∧ P a b then -y a b else y a b) z = fun a b => if a < n ∧ P a b then -z a b else z a b := by
  refine itn_inv (fun k a b => if a < k ∧ P a b then -z a b else z a b) ?_ ?_ rfl
  · funext a b; simp
  · intro i hi; funext a b
    by_cases h : a = i
    · subst h; by_cases h' : P a b <;> simp [h']
    · have : (a < i + 1) = (a < i) := by apply propext; omega
      simp [h, this]
theorem itn2_neg_ak {M : Type} [Neg M] (n : ℕ) (P : ℕ → ℕ → Prop) [inst : ∀ a b, Decidable (P a b)]  (z : ℕ → ℕ → M) :
    itn n (fun i y a b => if P a b ∧ a = i then -y a b else y a b) z = fun a b => if P a b ∧ a < n then -z a b else z a b := by
  refine itn_inv (fun k a b => if P a b ∧ a < k then -z a b else z a b) ?_ ?_ rfl
  · funext a b; simp
  · intro i hi; funext a b
    by_cases h : a = i
    · subst h; by_cases h' : P a b <;> simp [h']
    · have : (a < i + 1) = (a < i) := by apply propext; omega
      simp [h, this]
theorem itn2_neg_b {M : Type} [Neg M] (n : ℕ)  (z : ℕ → ℕ → M) :
    itn n (fun i y a b => if b = i then -y a b else y a b) z = fun a b => if b < n then -z a b else z a b := by
  refine itn_inv (fun k a b => if b < k then -z a b else z a b) ?_ ?_ rfl
  · funext a b; simp
  · intro i hi; funext a b
    by_cases h : b = i
    · subst h; simp
    · have : (b < i + 1) = (b < i) := by apply propext; omega
      simp [h, this]
theorem itn2_neg_kb {M : Type} [Neg M] (n : ℕ) (P : ℕ → ℕ → Prop) [inst : ∀ a b, Decidable (P a b)]  (z : ℕ → ℕ → M) :
    itn n (fun i y a b => if b = i ∧ P a b then -y a b else y a b) z = fun a b => if b < n ∧ P a b then -z a b else z a b := by
  refine itn_inv (fun k a b => if b < k ∧ P a b then -z a b else z a b) ?_ ?_ rfl
  · funext a b; simp
  · intro i hi; funext a b
    by_cases h : b = i
    · subst h; by_cases h' : P a b <;> simp [h']
    · have : (b < i + 1) = (b < i) := by apply propext; omega
      simp [h, this]
theorem itn2_neg_bk {M : Type} [Neg M] (n : ℕ) (P : ℕ → ℕ → Prop) [inst : ∀ a b, Decidable (P a b)]  (z : ℕ → ℕ → M) :
    itn n (fun i y a b => if P a b ∧ b = i then -y a b else y a b) z = fun a b => if P a b ∧ b < n then -z a b else z a b := by
  refine itn_inv (fun k a b => if P a b ∧ b < k then -z a b else z a b) ?_ ?_ rfl
  · funext a b; simp
  · intro i hi; funext a b
    by_cases h : b = i
    · subst h; by_cases h' : P a b <;> simp [h']
    · have : (b < i + 1) = (b < i) := by apply propext; omega
      simp [h, this]
theorem itn1_set_a (n : ℕ)  (v : ℕ → ℕ → α) (z : ℕ → α) :
    itn n (fun i y a => if a = i then v i a else y a) z = fun a => if a < n then v a a else z a := by
  refine itn_inv (fun k a => if a < k then v a a else z a) ?_ ?_ rfl
  · funext a; simp
  · intro i hi; funext a
    by_cases h : a = i
    · subst h; simp
    · have : (a < i + 1) = (a < i) := by apply propext; omega
      simp [h, this]
theorem itn1_set_ka (n : ℕ) (P : ℕ → Prop) [inst : ∀ a, Decidable (P a)]  (v : ℕ → ℕ → α) (z : ℕ → α) :
    itn n (fun i y a => if a = i ∧ P a then v i a else y a) z = fun a => if a < n ∧ P a then v a a else z a := by
  refine itn_inv (fun k a => if a < k ∧ P a then v a a else z a) ?_ ?_ rfl
  · funext a; simp
  · intro i hi; funext a
    by_cases h : a = i
    · subst h; by_cases h' : P a <;> simp [h']
    · have : (a < i + 1) = (a < i) := by apply propext; omega
      simp [h, this]
theorem itn1_set_ak (n : ℕ) (P : ℕ → Prop) [inst : ∀ a, Decidable (P a)]  (v : ℕ → ℕ → α) (z : ℕ → α) :
    itn n (fun i y a => if P a ∧ a = i then v i a else y a) z = fun a => if P a ∧ a < n then v a a else z a := by
  refine itn_inv (fun k a => if P a ∧ a < k then v a a else z a) ?_ ?_ rfl
  · funext a; simp
  · intro i hi; funext a
    by_cases h : a = i
    · subst h; by_cases h' : P a <;> simp [h']
    · have : (a < i + 1) = (a < i) := by apply propext; omega
      simp [h, this]
/-- the same entries at every iteration -/
theorem itn2_sum_if {M : Type} [AddCommMonoid M] (n : ℕ) (P : ℕ → ℕ → Prop) [inst : ∀ a b, Decidable (P a b)] (v : ℕ → ℕ → ℕ → M) (z : ℕ → ℕ → M) :
    itn n (fun i y a b => if P a b then y a b + v i a b else y a b) z = fun a b => if P a b then z a b + ∑ i ∈ Finset.range n, v i a b else z a b := by
  refine itn_inv (fun k a b => if P a b then z a b + ∑ i ∈ Finset.range k, v i a b else z a b) ?_ ?_ rfl
  · funext a b; simp
  · intro i hi; funext a b
    by_cases h : P a b <;> simp [h, Finset.sum_range_succ, add_assoc]
theorem itn2_sum {M : Type} [AddCommMonoid M] (n : ℕ) (v : ℕ → ℕ → ℕ → M) (z : ℕ → ℕ → M) :
    itn n (fun i y a b => y a b + v i a b) z = fun a b => z a b + ∑ i ∈ Finset.range n, v i a b := by
  refine itn_inv (fun k a b => z a b + ∑ i ∈ Finset.range k, v i a b) ?_ ?_ rfl
  · funext a b; simp
  · intro i hi; funext a b; simp [Finset.sum_range_succ, add_assoc]
theorem itn1_sum {M : Type} [AddCommMonoid M] (n : ℕ) (v : ℕ → ℕ → M) (z : ℕ → M) :
    itn n (fun i y a => y a + v i a) z = fun a => z a + ∑ i ∈ Finset.range n, v i a := by
  refine itn_inv (fun k a => z a + ∑ i ∈ Finset.range k, v i a) ?_ ?_ rfl
  · funext a; simp
  · intro i hi; funext a; simp [Finset.sum_range_succ, add_assoc]
/-- an accumulator picked out of a list -/
def accIf {M : Type} [Add M] (p : Prop) [Decidable p] (y v : M) : M := if p then y + v else y
theorem upd1_acc {M : Type} [AddCommMonoid M] (y : ℕ → M) (v : M) (a i : ℕ) :
    (if a = i then y i + v else y a) = accIf (a = i) (y a) v := by
  unfold accIf; split_ifs with h
  · rw [h]
  · rfl
theorem upd1_acc' {M : Type} [AddCommMonoid M] (y : ℕ → M) (v : M) (a i : ℕ) :
    (if a = i then v + y i else y a) = accIf (a = i) (y a) v := by
  rw [add_comm, upd1_acc]
theorem itn1_acc_sum {M : Type} [AddCommMonoid M] (n : ℕ) (P : ℕ → Prop) [inst : ∀ a, Decidable (P a)] (v : ℕ → ℕ → M) (z : ℕ → M) :
    itn n (fun i y a => accIf (P a) (y a) (v i a)) z = fun a => accIf (P a) (z a) (∑ i ∈ Finset.range n, v i a) := by
  refine itn_inv (fun k a => accIf (P a) (z a) (∑ i ∈ Finset.range k, v i a)) ?_ ?_ rfl
  · funext a; simp [accIf]
  · intro i hi; funext a
    by_cases h : P a <;> simp [accIf, h, Finset.sum_range_succ, add_assoc]
theorem itn1_acc_run {M : Type} [AddCommMonoid M] (n : ℕ) (v : ℕ → ℕ → M) (z : ℕ → M) :
    itn n (fun i y a => accIf (a = i) (y a) (v i a)) z = fun a => accIf (a < n) (z a) (v a a) := by
  refine itn_inv (fun k a => accIf (a < k) (z a) (v a a)) ?_ ?_ rfl
  · funext a; simp [accIf]
  · intro i hi; funext a
    by_cases h : a = i
    · subst h; simp [accIf]
    · have : (a < i + 1) = (a < i) := by apply propext; omega
      simp [accIf, h, this]

/-- what an iteration writes, in the form the lemmas above expect -/
macro "gs_upd1" : tactic => `(tactic| simp (config := {failIfUnchanged := false}) only [upd1_acc, upd1_acc'])
theorem rhs2 {l : List (List α)} {m c : ℕ} {B : ℕ → ℕ → α} (h : l = vec m fun a => vec c fun b => B a b) :
    l = vec m fun a => vec c fun b => B a b := h
macro "gs_upd" : tactic => `(tactic| ((simp (config := {failIfUnchanged := false}) only [ite_vec, upd2_acc, upd2_acc', upd2_sub, upd2_smul, upd2_mul, upd2_mul', upd2_neg]) <;> simp (config := {failIfUnchanged := false}) only [upd2_set]))
macro "gs_itn" : tactic => `(tactic| (simp (config := {failIfUnchanged := false}) only [zero_add, itn2_sum_if, itn2_sum, itn1_sum, itn1_acc_sum, itn1_acc_run, itn2_set_a, itn2_set_ka, itn2_set_ak, itn2_set_b, itn2_set_kb, itn2_set_bk, itn2_acc_a, itn2_acc_ka, itn2_acc_ak, itn2_acc_b, itn2_acc_kb, itn2_acc_bk, itn2_sub_a, itn2_sub_ka, itn2_sub_ak, itn2_sub_b, itn2_sub_kb, itn2_sub_bk, itn2_smul_a, itn2_smul_ka, itn2_smul_ak, itn2_smul_b, itn2_smul_kb, itn2_smul_bk, itn2_mul_a, itn2_mul_ka, itn2_mul_ak, itn2_mul_b, itn2_mul_kb, itn2_mul_bk, itn2_neg_a, itn2_neg_ka, itn2_neg_ak, itn2_neg_b, itn2_neg_kb, itn2_neg_bk, itn1_set_a, itn1_set_ka, itn1_set_ak] <;> (try simp only [accIf, zero_add])))
end Gsv
