import Gsv.Math
import Gsv.Itn
import Lean.Elab.Command
import Lean.Elab.Tactic.Omega

/-! Symbolic execution tactics. -/
namespace Gsv
open Res
variable {α β γ σ : Type}

@[gs] theorem bind_pure (x : Res α) : bind x (fun a => ok a) = x := by cases x <;> rfl
@[gs] theorem bind_pure' (x : Res Unit) : bind x (fun _ => ok ()) = x := by cases x <;> rfl
@[gs] theorem ok_inj (a b : α) : (ok a = ok b) = (a = b) := by simp
attribute [gs] Bool.not_eq_true' decide_eq_true_eq decide_eq_false_iff_not not_true_eq_false not_false_eq_true
  Bool.not_eq_false' Bool.true_eq_false Bool.false_eq_true eq_self_iff_true if_true if_false ite_true ite_false ite_self reduceIte
  List.length_map List.length_range List.length_nil List.length_cons List.isEmpty_nil List.isEmpty_cons beq_iff_eq ne_eq decide_true decide_false
  Nat.add_zero Nat.zero_add Nat.sub_self Nat.sub_zero List.nil_append List.append_nil decide_not Bool.not_not
  and_true true_and and_self and_false false_and or_true true_or or_false false_or or_self not_not
  min_self max_self Bool.and_true Bool.true_and Bool.and_false Bool.false_and Bool.or_true Bool.or_false Bool.true_or Bool.false_or
  Bool.not_true Bool.not_false Bool.decide_eq_true forall_true_left forall_const implies_true Bool.if_false_right Bool.and_eq_true
  one_smul zero_smul
@[gs] theorem decide_eq_ite (p : Prop) [Decidable p] : (decide p = true) = p := by simp
@[gs] theorem ite_not' (p : Prop) [Decidable p] (a b : α) : (if ¬ p then a else b) = if p then b else a := by
  split_ifs <;> rfl
@[gs] theorem sum_nil' {M : Type} [AddCommMonoid M] : ([] : List M).sum = 0 := rfl
@[gs] theorem list_lit1 (a : α) : [a] = vec 1 (fun _ => a) := rfl
@[gs high] theorem vec_sel2_vec (k n : ℕ) (x y : ℕ → α) :
    vec k (sel2 (vec n x) (vec n y)) = vec k fun i => vec n fun j => sel2 (x j) (y j) i := by
  apply vec_congr rfl; intro i _
  simp only [sel2]; split <;> rfl
@[gs] theorem list_lit2 (a b : α) : [a, b] = vec 2 (sel2 a b) := rfl
/-- closures that update captured state become loops -/
@[gs] theorem mapS_vec (f : α → σ → Res (β × σ)) (n : ℕ) (x : ℕ → α) (s : σ) :
    mapS f (vec n x) s = iterR n ([], s) (fun i t => bind (f (x i) t.2) fun b => ok (push t.1 b.1, b.2)) := by
  have key : ∀ (l : List α) (acc : List β) (s : σ),
      bind (mapS f l s) (fun r => ok (acc ++ r.1, r.2)) =
        forR l (acc, s) (fun a t => bind (f a t.2) fun b => ok (push t.1 b.1, b.2)) := by
    intro l
    induction l with
    | nil => intro acc s; simp [mapS, forR, foldR]
    | cons a l ih =>
      intro acc s
      simp only [mapS, forR, foldR] at *
      cases h : f a s with
      | panic => simp
      | ok b =>
        simp only [bind_ok]
        have := ih (acc ++ [b.1]) b.2
        simp only [push] at this ⊢
        rw [← this]
        cases mapS f l b.2 <;> simp
  have := key (vec n x) [] s
  rw [forR_vec] at this
  rw [← this]
  cases mapS f (vec n x) s <;> simp
@[gs] theorem forMutR_vec (f : α → σ → Res (α × σ)) (n : ℕ) (x : ℕ → α) (s : σ) :
    forMutR (vec n x) s f = iterR n ([], s) (fun i t => bind (f (x i) t.2) fun b => ok (push t.1 b.1, b.2)) :=
  mapS_vec f n x s

/-- a loop that pushes one element per iteration and draws `c` scalars -/
@[gs] theorem iterR_push_adv {E : Env} (n c : ℕ) (l : List α) (s : E.Rng) (g : ℕ → List α × E.Rng → α)
    (hg : ∀ i l s, g i (l, s) = g i ([], s)) :
    iterR n (l, s) (fun i t => ok (push t.1 (g i t), Env.adv t.2 c))
      = ok (l ++ vec n (fun i => g i ([], Env.adv s (c * i))), Env.adv s (c * n)) := by
  rw [iterR_inv (fun k => (l ++ vec k (fun i => g i ([], Env.adv s (c * i))), Env.adv s (c * k)))]
  · simp [Env.adv_zero]
  · intro i _; simp only [hg i _ _, push, vec_succ, List.append_assoc, Env.adv_adv, Nat.mul_succ]
@[gs] theorem iterR_adv_push {E : Env} (n c : ℕ) (l : List α) (s : E.Rng) (g : ℕ → E.Rng × List α → α)
    (hg : ∀ i l s, g i (s, l) = g i (s, [])) :
    iterR n (s, l) (fun i t => ok (Env.adv t.1 c, push t.2 (g i t)))
      = ok (Env.adv s (c * n), l ++ vec n (fun i => g i (Env.adv s (c * i), []))) := by
  rw [iterR_inv (fun k => (Env.adv s (c * k), l ++ vec k (fun i => g i (Env.adv s (c * i), []))))]
  · simp [Env.adv_zero]
  · intro i _; simp only [hg i _ _, push, vec_succ, List.append_assoc, Env.adv_adv, Nat.mul_succ]
/-- a loop that only draws -/
@[gs] theorem iterR_adv {E : Env} (n c : ℕ) (s : E.Rng) :
    iterR n s (fun _ s => ok (Env.adv s c)) = ok (Env.adv s (c * n)) := by
  rw [iterR_inv (fun k => Env.adv s (c * k))]
  · simp [Env.adv_zero]
  · intro i _; simp only [Env.adv_adv, Nat.mul_succ]
attribute [gs] iterR_modify
/-- a loop that pushes onto one row of a matrix -/
@[gs] theorem iterR_rowpush (n m i : ℕ) (x : ℕ → List α) (g : ℕ → α) (hi : i < m) :
    iterR n (vec m x) (fun j t => bind (idxR t i) fun r => setR t i (push r (g j)))
      = ok (vec m fun k => if k = i then x i ++ vec n g else x k) := by
  rw [iterR_inv (fun c => vec m fun k => if k = i then x i ++ vec c g else x k)]
  · apply vec_congr rfl; intro k _; split_ifs with h <;> simp [h]
  · intro j _
    simp only [idxR_vec, setR_vec, hi, if_true, bind_ok]
    congr 1; apply vec_congr rfl; intro k _
    by_cases h : k = i <;> simp [h, push, vec_succ]
theorem vec_succ_of {n : ℕ} {y z : ℕ → α} (h : ∀ k, k < n → z k = y k) : vec (n+1) z = vec n y ++ [z n] := by
  rw [vec_succ]; congr 1; exact vec_congr rfl h
/-- a loop that builds a list, one element per iteration, whatever the way it is written -/
theorem iterR_build {n : ℕ} {F : ℕ → List α → Res (List α)} (g : ℕ → α)
    (h : ∀ i (y : ℕ → α), i < n → F i (vec i y) = ok (vec i y ++ [g i])) :
    iterR n [] F = ok (vec n g) := by
  have := iterR_inv (fun k => vec k g) (n := n) (s := []) (F := F) rfl (fun i hi => by
    rw [h i g hi, vec_succ])
  exact this
/-- a loop that updates the `i`-th element at the `i`-th iteration -/
theorem iterR_rows {n : ℕ} {x z : ℕ → α} {F : ℕ → List α → Res (List α)}
    (h : ∀ i (y : ℕ → α), i < n → y i = x i → F i (vec n y) = ok (vec n fun k => if k = i then z i else y k)) :
    iterR n (vec n x) F = ok (vec n z) := by
  rw [iterR_inv (fun c => vec n fun k => if k < c then z k else x k)]
  · congr 1; apply vec_congr rfl; intro k hk; simp [hk]
  · apply vec_congr rfl; simp
  · intro i hi
    rw [h i _ hi (by simp)]
    congr 1; apply vec_congr rfl; intro k _
    split_ifs <;> first | rfl | omega | (subst_vars; rfl)

/-- a loop that appends one element to each of `n` rows per iteration -/
theorem iterR_cols {m n : ℕ} {F : ℕ → List (List α) → Res (List (List α))} (g : ℕ → ℕ → α)
    (h : ∀ i (y : ℕ → ℕ → α), i < m → F i (vec n fun j => vec i (y j)) = ok (vec n fun j => push (vec i (y j)) (g j i))) :
    iterR m (vec n fun _ => []) F = ok (vec n fun j => vec m (g j)) := by
  have := iterR_inv (fun k => vec n fun j => vec k (g j)) (n := m) (s := vec n fun _ => []) (F := F) rfl (fun i hi => by
    rw [h i g hi]; simp only [push, vec_succ])
  exact this
theorem bind_build {n : ℕ} {F : ℕ → List α → Res (List α)} {k : List α → Res β} {r : Res β} (g : ℕ → α)
    (h : ∀ i (y : ℕ → α), i < n → F i (vec i y) = ok (vec i y ++ [g i])) (hk : k (vec n g) = r) :
    bind (iterR n [] F) k = r := by rw [iterR_build g h, bind_ok, hk]
theorem bind_cols {m n : ℕ} {F : ℕ → List (List α) → Res (List (List α))} {k : List (List α) → Res β} {r : Res β}
    (g : ℕ → ℕ → α)
    (h : ∀ i (y : ℕ → ℕ → α), i < m → F i (vec n fun j => vec i (y j)) = ok (vec n fun j => push (vec i (y j)) (g j i)))
    (hk : k (vec n fun j => vec m (g j)) = r) :
    bind (iterR m (vec n fun _ => []) F) k = r := by rw [iterR_cols g h, bind_ok, hk]
theorem bind_rows {n : ℕ} {x : ℕ → α} {F : ℕ → List α → Res (List α)} {k : List α → Res β} {r : Res β} (z : ℕ → α)
    (h : ∀ i (y : ℕ → α), i < n → y i = x i → F i (vec n y) = ok (vec n fun k => if k = i then z i else y k))
    (hk : k (vec n z) = r) : bind (iterR n (vec n x) F) k = r := by rw [iterR_rows h, bind_ok, hk]
/-- a loop that adds to each of `k` accumulators -/
theorem iterR_accv {M : Type} [AddCommMonoid M] {n k : ℕ} {x : ℕ → M} {F : ℕ → List M → Res (List M)} (g : ℕ → ℕ → M)
    (h : ∀ i (y : ℕ → M), i < n → F i (vec k y) = ok (vec k fun j => y j + g i j)) :
    iterR n (vec k x) F = ok (vec k fun j => x j + ∑ i ∈ Finset.range n, g i j) := by
  apply iterR_inv (fun m => vec k fun j => x j + ∑ i ∈ Finset.range m, g i j)
  · simp
  · intro i hi; rw [h i _ hi]; simp [Finset.sum_range_succ, add_assoc]
theorem iterR_accv' {M : Type} [AddCommMonoid M] {n k : ℕ} {x : ℕ → M} {F : ℕ → List M → Res (List M)} (g : ℕ → ℕ → M)
    (h : ∀ i (y : ℕ → M), i < n → F i (vec k y) = ok (vec k fun j => g i j + y j)) :
    iterR n (vec k x) F = ok (vec k fun j => x j + ∑ i ∈ Finset.range n, g i j) :=
  iterR_accv g fun i y hi => by rw [h i y hi]; simp only [add_comm]
theorem bind_accv {M : Type} [AddCommMonoid M] {n k : ℕ} {x : ℕ → M} {F : ℕ → List M → Res (List M)} {K : List M → Res β} {r : Res β}
    (g : ℕ → ℕ → M) (h : ∀ i (y : ℕ → M), i < n → F i (vec k y) = ok (vec k fun j => y j + g i j))
    (hk : K (vec k fun j => x j + ∑ i ∈ Finset.range n, g i j) = r) : bind (iterR n (vec k x) F) K = r := by
  rw [iterR_accv g h, bind_ok, hk]
theorem bind_accv' {M : Type} [AddCommMonoid M] {n k : ℕ} {x : ℕ → M} {F : ℕ → List M → Res (List M)} {K : List M → Res β} {r : Res β}
    (g : ℕ → ℕ → M) (h : ∀ i (y : ℕ → M), i < n → F i (vec k y) = ok (vec k fun j => g i j + y j))
    (hk : K (vec k fun j => x j + ∑ i ∈ Finset.range n, g i j) = r) : bind (iterR n (vec k x) F) K = r := by
  rw [iterR_accv' g h, bind_ok, hk]
/-- a loop that builds a list and counts -/
theorem iterR_build_c {n c : ℕ} {F : ℕ → List α × ℕ → Res (List α × ℕ)} (g : ℕ → α)
    (h : ∀ i (y : ℕ → α), i < n → F i (vec i y, c + i) = ok (vec i y ++ [g i], c + i + 1)) :
    iterR n ([], c) F = ok (vec n g, c + n) := by
  exact iterR_inv (fun k => (vec k g, c + k)) (n := n) (s := ([], c)) (F := F) rfl (fun i hi => by
    rw [h i g hi, vec_succ]; rfl)
theorem iterR_c_build {n c : ℕ} {F : ℕ → ℕ × List α → Res (ℕ × List α)} (g : ℕ → α)
    (h : ∀ i (y : ℕ → α), i < n → F i (c + i, vec i y) = ok (c + i + 1, vec i y ++ [g i])) :
    iterR n (c, []) F = ok (c + n, vec n g) := by
  exact iterR_inv (fun k => (c + k, vec k g)) (n := n) (s := (c, [])) (F := F) rfl (fun i hi => by
    rw [h i g hi, vec_succ]; rfl)
theorem bind_build_c {n c : ℕ} {F : ℕ → List α × ℕ → Res (List α × ℕ)} {k : List α × ℕ → Res β} {r : Res β} (g : ℕ → α)
    (h : ∀ i (y : ℕ → α), i < n → F i (vec i y, c + i) = ok (vec i y ++ [g i], c + i + 1)) (hk : k (vec n g, c + n) = r) :
    bind (iterR n ([], c) F) k = r := by rw [iterR_build_c g h, bind_ok, hk]
theorem bind_c_build {n c : ℕ} {F : ℕ → ℕ × List α → Res (ℕ × List α)} {k : ℕ × List α → Res β} {r : Res β} (g : ℕ → α)
    (h : ∀ i (y : ℕ → α), i < n → F i (c + i, vec i y) = ok (c + i + 1, vec i y ++ [g i])) (hk : k (c + n, vec n g) = r) :
    bind (iterR n (c, []) F) k = r := by rw [iterR_c_build g h, bind_ok, hk]
/-- a loop that builds a list and draws `c` scalars per iteration -/
theorem iterR_build_adv {E : Env} {n c : ℕ} {s : E.Rng} {F : ℕ → List α × E.Rng → Res (List α × E.Rng)} (g : ℕ → E.Rng → α)
    (h : ∀ i (y : ℕ → α) (t : E.Rng), i < n → F i (vec i y, t) = ok (vec i y ++ [g i t], Env.adv t c)) :
    iterR n ([], s) F = ok (vec n fun i => g i (Env.adv s (c * i)), Env.adv s (c * n)) := by
  exact iterR_inv (fun k => (vec k fun i => g i (Env.adv s (c * i)), Env.adv s (c * k))) (n := n) (s := ([], s)) (F := F)
    (by simp [Env.adv_zero]) (fun i hi => by rw [h i _ _ hi, vec_succ, Env.adv_adv, Nat.mul_succ])
theorem iterR_adv_build {E : Env} {n c : ℕ} {s : E.Rng} {F : ℕ → E.Rng × List α → Res (E.Rng × List α)} (g : ℕ → E.Rng → α)
    (h : ∀ i (y : ℕ → α) (t : E.Rng), i < n → F i (t, vec i y) = ok (Env.adv t c, vec i y ++ [g i t])) :
    iterR n (s, []) F = ok (Env.adv s (c * n), vec n fun i => g i (Env.adv s (c * i))) := by
  exact iterR_inv (fun k => (Env.adv s (c * k), vec k fun i => g i (Env.adv s (c * i)))) (n := n) (s := (s, [])) (F := F)
    (by simp [Env.adv_zero]) (fun i hi => by rw [h i _ _ hi, vec_succ, Env.adv_adv, Nat.mul_succ])
theorem bind_build_adv {E : Env} {n c : ℕ} {s : E.Rng} {F : ℕ → List α × E.Rng → Res (List α × E.Rng)} {k : List α × E.Rng → Res β} {r : Res β}
    (g : ℕ → E.Rng → α)
    (h : ∀ i (y : ℕ → α) (t : E.Rng), i < n → F i (vec i y, t) = ok (vec i y ++ [g i t], Env.adv t c))
    (hk : k (vec n fun i => g i (Env.adv s (c * i)), Env.adv s (c * n)) = r) : bind (iterR n ([], s) F) k = r := by
  rw [iterR_build_adv g h, bind_ok, hk]
theorem bind_adv_build {E : Env} {n c : ℕ} {s : E.Rng} {F : ℕ → E.Rng × List α → Res (E.Rng × List α)} {k : E.Rng × List α → Res β} {r : Res β}
    (g : ℕ → E.Rng → α)
    (h : ∀ i (y : ℕ → α) (t : E.Rng), i < n → F i (t, vec i y) = ok (Env.adv t c, vec i y ++ [g i t]))
    (hk : k (Env.adv s (c * n), vec n fun i => g i (Env.adv s (c * i))) = r) : bind (iterR n (s, []) F) k = r := by
  rw [iterR_adv_build g h, bind_ok, hk]
/-- the invariant of a loop is its result, at `i` instead of `n` -/
theorem iterR_ind {n : ℕ} {s : α} {F : ℕ → α → Res α} (T : ℕ → α) (h0 : s = T 0)
    (hs : ∀ i, i < n → F i (T i) = ok (T (i+1))) {r : α} (hr : T n = r) : iterR n s F = ok r :=
  hr ▸ iterR_inv T h0 hs
open Lean Meta Elab Tactic in
elab "gs_ind" : tactic => withMainContext do
  let g ← getMainGoal
  let some (_, l, r) := (← instantiateMVars (← g.getType)).eq? | throwError "no equation"
  let (``iterR, #[α, n, _, _]) := l.getAppFnArgs | throwError "no loop"
  let (``Res.ok, #[_, r]) := r.getAppFnArgs | throwError "no value"
  unless n.isFVar do throwError "no variable bound"
  let b ← kabstract r n
  let T := Expr.lam `n (mkConst ``Nat) b .default
  let t ← Term.exprToSyntax T
  evalTactic (← `(tactic| (refine iterR_ind $t ?_ ?_ rfl <;> beta_reduce)))
/-- a loop over a pair is a pair of loops -/
theorem iterR_pair {n : ℕ} {a : α} {b : β} {F : ℕ → α × β → Res (α × β)} (f : ℕ → α → α) (g : ℕ → β → β)
    (h : ∀ i x y, i < n → F i (x, y) = ok (f i x, g i y)) :
    iterR n (a, b) F = bind (iterR n a fun i x => ok (f i x)) fun x => bind (iterR n b fun i y => ok (g i y)) fun y => ok (x, y) := by
  induction n with
  | zero => rfl
  | succ n ih =>
    rw [iterR_succ, iterR_succ, iterR_succ, ih fun i x y hi => h i x y (by omega)]
    cases iterR n a fun i x => ok (f i x) <;> [skip; rfl]
    cases iterR n b fun i y => ok (g i y) <;> [skip; rfl]
    simp only [bind_ok]
    rw [h n _ _ (by omega)]
theorem bind_pair {γ : Type} {n : ℕ} {a : α} {b : β} {F : ℕ → α × β → Res (α × β)} {k : α × β → Res γ} {r : Res γ} (f : ℕ → α → α) (g : ℕ → β → β)
    (h : ∀ i x y, i < n → F i (x, y) = ok (f i x, g i y))
    (hk : bind (iterR n a fun i x => ok (f i x)) (fun x => bind (iterR n b fun i y => ok (g i y)) fun y => k (x, y)) = r) :
    bind (iterR n (a, b) F) k = r := by
  rw [iterR_pair f g h, ← hk]
  cases iterR n a fun i x => ok (f i x) <;> [skip; rfl]
  cases iterR n b fun i y => ok (g i y) <;> rfl
/-- a loop that draws `c` scalars per iteration: the generator of iteration `i` is known -/
theorem iterR_rng {E : Env} {n c : ℕ} {a : α} {s : E.Rng} {F : ℕ → α × E.Rng → Res (α × E.Rng)} (f : ℕ → E.Rng → α → α)
    (h : ∀ i x t, i < n → F i (x, t) = ok (f i t x, Env.adv t c)) :
    iterR n (a, s) F = bind (iterR n a fun i x => ok (f i (Env.adv s (c * i)) x)) fun x => ok (x, Env.adv s (c * n)) := by
  induction n with
  | zero => simp [iterR_zero, Env.adv_zero]
  | succ n ih =>
    rw [iterR_succ, iterR_succ, ih fun i x y hi => h i x y (by omega)]
    cases iterR n a fun i x => ok (f i (Env.adv s (c * i)) x) <;> [skip; rfl]
    simp only [bind_ok]
    rw [h n _ _ (by omega), Env.adv_adv, Nat.mul_succ]
theorem bind_rng {E : Env} {n c : ℕ} {a : α} {s : E.Rng} {F : ℕ → α × E.Rng → Res (α × E.Rng)} {k : α × E.Rng → Res β} {r : Res β}
    (f : ℕ → E.Rng → α → α) (h : ∀ i x t, i < n → F i (x, t) = ok (f i t x, Env.adv t c))
    (hk : bind (iterR n a fun i x => ok (f i (Env.adv s (c * i)) x)) (fun x => k (x, Env.adv s (c * n))) = r) :
    bind (iterR n (a, s) F) k = r := by
  rw [iterR_rng f h, ← hk]
  cases iterR n a fun i x => ok (f i (Env.adv s (c * i)) x) <;> rfl
/-- change of the representation of the state -/
theorem iterR_iso {n : ℕ} {a : α} {F : ℕ → α → Res α} (p : α → β) (q : β → α) (hq : ∀ x, q (p x) = x) :
    iterR n a F = bind (iterR n (p a) fun i y => bind (F i (q y)) fun x => ok (p x)) fun y => ok (q y) := by
  induction n with
  | zero => simp [iterR_zero, hq]
  | succ n ih =>
    rw [iterR_succ, iterR_succ, ih]
    cases iterR n (p a) fun i y => bind (F i (q y)) fun x => ok (p x) with
    | ok y => simp only [bind_ok]; cases F n (q y) <;> simp [hq]
    | panic => rfl
theorem bind_iso {γ : Type} {n : ℕ} {a : α} {F : ℕ → α → Res α} {k : α → Res γ} (p : α → β) (q : β → α) (hq : ∀ x, q (p x) = x) :
    bind (iterR n a F) k = bind (iterR n (p a) fun i y => bind (F i (q y)) fun x => ok (p x)) fun y => k (q y) := by
  rw [iterR_iso p q hq]
  cases iterR n (p a) fun i y => bind (F i (q y)) fun x => ok (p x) <;> rfl
theorem bind_rng1 {γ : Type} {E : Env} {n : ℕ} {a : α} {s : E.Rng} {F : ℕ → E.Rng × α → Res (E.Rng × α)} {k : E.Rng × α → Res γ} {r : Res γ}
    (hk : bind (iterR n (a, s) fun i y => bind (F i (y.2, y.1)) fun x => ok (x.2, x.1)) (fun y => k (y.2, y.1)) = r) :
    bind (iterR n (s, a) F) k = r := (bind_iso (fun x => (x.2, x.1)) (fun y => (y.2, y.1)) fun _ => rfl).trans hk
theorem bind_rng2 {γ : Type} {E : Env} {n : ℕ} {a : α} {b : β} {s : E.Rng} {F : ℕ → α × β × E.Rng → Res (α × β × E.Rng)} {k : α × β × E.Rng → Res γ} {r : Res γ}
    (hk : bind (iterR n ((a, b), s) fun i y => bind (F i (y.1.1, y.1.2, y.2)) fun x => ok ((x.1, x.2.1), x.2.2)) (fun y => k (y.1.1, y.1.2, y.2)) = r) :
    bind (iterR n (a, b, s) F) k = r := (bind_iso (fun x => ((x.1, x.2.1), x.2.2)) (fun y => (y.1.1, y.1.2, y.2)) fun _ => rfl).trans hk
theorem bind_rng2' {γ : Type} {E : Env} {n : ℕ} {a : α} {b : β} {s : E.Rng} {F : ℕ → α × E.Rng × β → Res (α × E.Rng × β)} {k : α × E.Rng × β → Res γ} {r : Res γ}
    (hk : bind (iterR n ((a, b), s) fun i y => bind (F i (y.1.1, y.2, y.1.2)) fun x => ok ((x.1, x.2.2), x.2.1)) (fun y => k (y.1.1, y.2, y.1.2)) = r) :
    bind (iterR n (a, s, b) F) k = r := (bind_iso (fun x => ((x.1, x.2.2), x.2.1)) (fun y => (y.1.1, y.2, y.1.2)) fun _ => rfl).trans hk
theorem to_bind {x r : Res α} (h : bind x (fun y => ok y) = r) : x = r := by
  rw [← h]; cases x <;> rfl
@[gs] theorem iterR_commit1 {E : Env} (n : ℕ) (a : List (Com1 E)) (b : List (List E.Fr)) (F : ℕ → Commit1 E → Res (Commit1 E)) :
    iterR n (Commit1.mk a b) F = bind (iterR n (a, b) fun i y => bind (F i ⟨y.1, y.2⟩) fun x => ok (x.coms, x.rand)) fun y => ok ⟨y.1, y.2⟩ :=
  iterR_iso (fun x : Commit1 E => (x.coms, x.rand)) (fun y => (⟨y.1, y.2⟩ : Commit1 E)) fun _ => rfl
@[gs] theorem iterR_commit2 {E : Env} (n : ℕ) (a : List (Com2 E)) (b : List (List E.Fr)) (F : ℕ → Commit2 E → Res (Commit2 E)) :
    iterR n (Commit2.mk a b) F = bind (iterR n (a, b) fun i y => bind (F i ⟨y.1, y.2⟩) fun x => ok (x.coms, x.rand)) fun y => ok ⟨y.1, y.2⟩ :=
  iterR_iso (fun x : Commit2 E => (x.coms, x.rand)) (fun y => (⟨y.1, y.2⟩ : Commit2 E)) fun _ => rfl
@[gs] theorem bind_eta (x : Res α) : bind x (fun y => ok y) = x := by cases x <;> rfl
attribute [gs] Prod.mk.eta
theorem vec_succ_ext {n : ℕ} {y z : ℕ → α} (h : ∀ k, k < n → z k = y k) :
    vec (n+1) z = vec (n+1) (fun k => if k < n then y k else z n) := by
  apply vec_congr rfl; intro k hk
  by_cases h' : k < n
  · simp [h', h]
  · have : k = n := by omega
    simp [this]

open Lean Meta Elab Tactic in
/-- decide a condition on natural numbers with `omega` -/
def omegaProve (c : Expr) : MetaM (Option Expr) := do
  let g ← mkFreshExprMVar c
  try
    let (_, _) ← (Term.TermElabM.run <| Tactic.run g.mvarId! (do
      evalTactic (← `(tactic| omega))))
    return some (← instantiateMVars g)
  catch _ => return none

open Lean Meta in
partial def isNatProp (e : Expr) : Bool :=
  match e.getAppFnArgs with
  | (``LT.lt, #[t, _, _, _]) => t.isConstOf ``Nat
  | (``LE.le, #[t, _, _, _]) => t.isConstOf ``Nat
  | (``GT.gt, #[t, _, _, _]) => t.isConstOf ``Nat
  | (``GE.ge, #[t, _, _, _]) => t.isConstOf ``Nat
  | (``Eq, #[t, _, _]) => t.isConstOf ``Nat
  | (``Ne, #[t, _, _]) => t.isConstOf ``Nat
  | (``And, #[a, b]) => isNatProp a && isNatProp b
  | (``Or, #[a, b]) => isNatProp a && isNatProp b
  | (``Not, #[a]) => isNatProp a
  | _ => false

open Lean Meta Simp in
simproc_decl gsIf (ite _ _ _) := fun e => do
  let (``ite, #[t, c, inst, a, b]) := e.getAppFnArgs | return .continue
  unless isNatProp c do return .continue
  if let some h ← omegaProve c then
    return .visit { expr := a, proof? := ← mkAppOptM ``if_pos #[c, inst, h, t, a, b] }
  if let some h ← omegaProve (mkNot c) then
    return .visit { expr := b, proof? := ← mkAppOptM ``if_neg #[c, inst, h, t, a, b] }
  return .continue

theorem bind_step (α β : Type) (x : Res α) (v : α) (h : x = ok v) (k : α → Res β) : bind x k = k v := by rw [h]; rfl
theorem bind_stop (α β : Type) (x : Res α) (h : x = panic) (k : α → Res β) : bind x k = panic := by rw [h]; rfl
open Lean Meta Simp in
/-- evaluates the first part of a sequence before looking at the rest -/
simproc_decl gsBind (Res.bind _ _) := fun e => do
  let (``Res.bind, #[α, β, x, k]) := e.getAppFnArgs | return .continue
  let r ← simp x
  match r.expr.getAppFnArgs with
  | (``Res.ok, #[_, v]) =>
    return .visit { expr := (mkApp k v).headBeta, proof? := mkAppN (mkConst ``bind_step) #[α, β, x, v, ← r.getProof, k] }
  | (``Res.panic, #[_]) =>
    return .done { expr := mkApp (mkConst ``Res.panic) β, proof? := mkAppN (mkConst ``bind_stop) #[α, β, x, ← r.getProof, k] }
  | _ => return .continue

open Lean Meta Simp in
/-- `∑ i ∈ range n, f (n - 1 - i)` is the sum the other way round -/
simproc_decl gsRefl (Finset.sum _ _) := fun e => do
  let (``Finset.sum, #[_, ty, inst, rg, f]) := e.getAppFnArgs | return .continue
  let (``Finset.range, #[n]) := rg.getAppFnArgs | return .continue
  let .lam nm dom b bi := f | return .continue
  unless b.hasLooseBVars do return .continue
  let some one ← pure (some (mkNatLit 1)) | return .continue
  let ok ← withLocalDecl nm bi dom fun i => do
    let body := b.instantiate1 i
    let pat ← mkAppM ``HSub.hSub #[← mkAppM ``HSub.hSub #[n, one], i]
    let ab ← kabstract body pat
    if ab.hasLooseBVars && !(ab.containsFVar i.fvarId!) then return some (mkLambda nm bi dom ab) else return none
  let some g := ok | return .continue
  let pf ← mkAppOptM ``Finset.sum_range_reflect #[ty, inst, g, n]
  let some (_, l, r) := (← inferType pf).eq? | return .continue
  unless ← isDefEq l e do return .continue
  return .visit { expr := r.headBeta, proof? := pf }

/-- discharger for the side conditions of the rewriting rules -/
macro "gs_disch" : tactic => `(tactic| first | assumption | (exact fun _ => rfl) | omega | (intros; rfl) | (simp only [gs] <;> omega) | fail)

syntax "gs_simp" ("[" Lean.Parser.Tactic.simpLemma,* "]")? (Lean.Parser.Tactic.location)? : tactic
macro_rules
  | `(tactic| gs_simp $[$l:location]?) => `(tactic| simp (config := {contextual := true, failIfUnchanged := false}) (disch := gs_disch) only [gs, ↓gsBind, gsIf, gsRefl, Nat.reduceAdd, Nat.reduceMul, Nat.reduceSub] $[$l:location]?)
  | `(tactic| gs_simp [$ls,*] $[$l:location]?) => `(tactic| simp (config := {contextual := true, failIfUnchanged := false}) (disch := gs_disch) only [gs, ↓gsBind, gsIf, gsRefl, Nat.reduceAdd, Nat.reduceMul, Nat.reduceSub, $ls,*] $[$l:location]?)

/-- equality of closed forms -/
macro "gs_alg0" : tactic => `(tactic| first
  | with_reducible rfl
  | assumption
  | omega
  | (subst_vars; rfl)
  | (exfalso; omega)
  | (abel; done)
  | (ring; done)
  | (module; done)
  | (simp only [Finset.sum_add_distrib, smul_add, add_smul, mul_smul]; first | done | (abel; done) | (module; done))
  | rfl)
open Lean Meta Simp in
/-- two sums one inside the other are put in the order of their bounds -/
simproc_decl gsSwap (Finset.sum _ _) := fun e => do
  let (``Finset.sum, #[_, _, _, s, f]) := e.getAppFnArgs | return .continue
  let .lam nm dom b bi := f | return .continue
  let (``Finset.sum, #[_, _, _, t, g]) := b.getAppFnArgs | return .continue
  if t.hasLooseBVars then return .continue
  unless Expr.lt t s do return .continue
  let .lam nm' dom' b' bi' := g | return .continue
  let f2 := mkLambda nm bi dom (mkLambda nm' bi' dom' b')
  let pf ← mkAppOptM ``Finset.sum_comm #[none, none, none, none, s, t, f2]
  let some (_, _, r) := (← inferType pf).eq? | return .continue
  return .visit { expr := ← Core.betaReduce r, proof? := pf }

/-- the same terms, summed in another order -/
macro "gs_reorder" : tactic => `(tactic| (
  simp only [sub_eq_add_neg, Finset.mul_sum, Finset.sum_mul, Finset.smul_sum, Finset.sum_smul, smul_smul, add_smul, smul_add, mul_add, add_mul, neg_smul, smul_neg, neg_mul, mul_neg, neg_neg, neg_add_rev, Finset.sum_add_distrib, Finset.sum_neg_distrib, mul_comm, mul_left_comm, mul_assoc, gsSwap]
  first | done | (abel; done) | (module; done)))
/-- the same pairings, up to bilinearity -/
macro "gs_bil" : tactic => `(tactic| (
  simp only [sub_eq_add_neg, pr_add_left, pr_add_right, pr_sum_left, pr_sum_right, pr_smul_left, pr_smul_right, pr_neg_left, pr_neg_right, Finset.mul_sum, Finset.sum_mul, Finset.smul_sum, Finset.sum_smul, smul_smul, add_smul, smul_add, mul_add, add_mul, neg_smul, smul_neg, neg_mul, mul_neg, neg_neg, neg_add_rev, Finset.sum_add_distrib, Finset.sum_neg_distrib, mul_comm, mul_left_comm, mul_assoc, gsSwap]
  first | done | (abel; done) | (module; done)))
macro "gs_alg" : tactic => `(tactic| first
  | gs_alg0
  | (split_ifs <;> gs_alg0)
  | (split_ifs <;> (try simp only [Nat.lt_one_iff] at *) <;> subst_vars <;> gs_simp <;> gs_alg0)
  | gs_reorder)

theorem vec2_congr {x y : ℕ → α} (h0 : x 0 = y 0) (h1 : x 1 = y 1) : vec 2 x = vec 2 y := by
  simp only [vec_succ, vec_zero, h0, h1]
theorem vec1_congr {x y : ℕ → α} (h0 : x 0 = y 0) : vec 1 x = vec 1 y := by
  simp only [vec_succ, vec_zero, h0]
theorem EquProof.mk_congr {E : Env} {a a' : List (Com2 E)} {b b' : List (Com1 E)} {c c' d d'}
    (h1 : a = a') (h2 : b = b') (h3 : c = c') (h4 : d = d') : EquProof.mk a b c d = EquProof.mk a' b' c' d' := by
  rw [h1, h2, h3, h4]
@[gs] theorem sum_range_two {M : Type} [AddCommMonoid M] (f : ℕ → M) : ∑ i ∈ Finset.range 2, f i = f 0 + f 1 := by
  simp [Finset.sum_range_succ]
@[gs] theorem sum_range_one' {M : Type} [AddCommMonoid M] (f : ℕ → M) : ∑ i ∈ Finset.range 1, f i = f 0 := by
  simp
@[gs] theorem sum_range_three {M : Type} [AddCommMonoid M] (f : ℕ → M) : ∑ i ∈ Finset.range 3, f i = f 0 + f 1 + f 2 := by
  simp [Finset.sum_range_succ]
@[gs] theorem sum_range_four {M : Type} [AddCommMonoid M] (f : ℕ → M) : ∑ i ∈ Finset.range 4, f i = f 0 + f 1 + f 2 + f 3 := by
  simp [Finset.sum_range_succ]
@[gs] theorem sum_range_five {M : Type} [AddCommMonoid M] (f : ℕ → M) : ∑ i ∈ Finset.range 5, f i = f 0 + f 1 + f 2 + f 3 + f 4 := by
  simp [Finset.sum_range_succ]
@[gs] theorem sum_range_six {M : Type} [AddCommMonoid M] (f : ℕ → M) : ∑ i ∈ Finset.range 6, f i = f 0 + f 1 + f 2 + f 3 + f 4 + f 5 := by
  simp [Finset.sum_range_succ]
@[gs] theorem head?_vec (n : ℕ) (x : ℕ → α) : (vec n x).head? = if 0 < n then some (x 0) else none := by
  cases n <;> simp [vec, List.range_succ_eq_map]
@[gs] theorem getLast?_vec (n : ℕ) (x : ℕ → α) : (vec n x).getLast? = if 0 < n then some (x (n-1)) else none := by
  cases n <;> simp [vec, List.range_succ]
@[gs] theorem forR_nil (s : σ) (f : α → σ → Res σ) : forR [] s f = ok s := id rfl
@[gs] theorem foldR_nil (s : σ) (f : σ → α → Res σ) : foldR f s [] = ok s := id rfl
@[gs] theorem forR_same (l : List α) (s : σ) : forR l s (fun _ t => ok t) = ok s := by
  induction l with
  | nil => rfl
  | cons a l ih => exact ih
@[gs] theorem iterR_same (n : ℕ) (s : σ) : iterR n s (fun _ t => ok t) = ok s := forR_same _ s
attribute [gs] List.head?_cons List.getLast?_singleton List.head?_nil List.getLast?_nil
@[gs] theorem unwrapR_some (a : α) : unwrapR (some a) = ok a := id rfl
@[gs] theorem unwrapR_ite (p : Prop) [Decidable p] (a b : Option α) : unwrapR (if p then a else b) = if p then unwrapR a else unwrapR b := by
  split <;> rfl
attribute [gs] Finset.sum_range_zero Nat.mul_zero Nat.zero_mul Nat.one_mul Nat.mul_one

theorem CRS.mk_congr {E : Env} {a a' : List (Com1 E)} {b b' : List (Com2 E)} {c c' d d' e e'}
    (h1 : a = a') (h2 : b = b') (h3 : c = c') (h4 : d = d') (h5 : e = e') : CRS.mk a b c d e = CRS.mk a' b' c' d' e' := by
  rw [h1, h2, h3, h4, h5]
theorem Com1.mk_congr {E : Env} {a a' b b' : E.G1} (h : a = a') (h' : b = b') : Com1.mk a b = Com1.mk a' b' := by rw [h, h']
theorem Com2.mk_congr {E : Env} {a a' b b' : E.G2} (h : a = a') (h' : b = b') : Com2.mk a b = Com2.mk a' b' := by rw [h, h']
theorem vec_snoc_congr {n : ℕ} {f g : ℕ → α} {z : α} (h : ∀ j, j < n → f j = g j) (hz : z = g n) :
    vec (n+1) (fun j => if j < n then f j else z) = vec (n+1) g := by
  apply vec_congr rfl; intro k hk
  by_cases h' : k < n
  · simp [h', h]
  · have : k = n := by omega
    subst this; simp [hz]
/-- one congruence step -/
macro "gs_cong" : tactic => `(tactic| first
  | with_reducible rfl
  | (refine congrArg Res.ok ?_)
  | (refine congrArg₂ Prod.mk ?_ ?_)
  | (refine congrArg₂ Commit1.mk ?_ ?_)
  | (refine congrArg₂ Commit2.mk ?_ ?_)
  | (refine EquProof.mk_congr ?_ ?_ ?_ ?_)
  | (refine CRS.mk_congr ?_ ?_ ?_ ?_ ?_)
  | (simp only [Com1.mk.injEq]; refine ⟨?_, ?_⟩)
  | (simp only [Com2.mk.injEq]; refine ⟨?_, ?_⟩)
  | (refine congrArg₂ Env.adv rfl (by omega))
  | (refine congrArg₂ Env.frAt rfl (by omega))
  | (refine vec2_congr ?_ ?_ <;> simp (config := {failIfUnchanged := false}) only [gs, gsIf])
  | (refine vec1_congr ?_ <;> simp (config := {failIfUnchanged := false}) only [gs, gsIf])
  | (with_reducible refine vec_snoc_congr (fun j hj => ?_) ?_ <;> beta_reduce)
  | (apply vec_congr rfl; intros)
  | (refine vec_congr (by omega) ?_; intros)
  | (refine Finset.sum_congr rfl ?_; intros))

/-- `vec m (fun i => vec n ..) = vec m' ..` and other equalities of results, down to algebra -/
macro "gs_ext" : tactic => `(tactic| first
  | rfl
  | (refine vec_succ_ext ?_; intro k hk; simp only [hk, Nat.ne_of_lt hk, if_true, if_false]; done)
  | ((repeat' gs_cong) <;> gs_alg))

theorem is_iterR {n : ℕ} {s : α} {F : ℕ → α → Res α} {r : Res α} (h : iterR n s F = r) : iterR n s F = r := h
theorem is_bind_iterR {n : ℕ} {s : α} {F : ℕ → α → Res α} {k : α → Res β} {r : Res β} (h : bind (iterR n s F) k = r) : bind (iterR n s F) k = r := h
syntax "gs_go" "[" Lean.Parser.Tactic.simpLemma,* "]" : tactic
open Lean Meta Elab Tactic in
/-- all loops have been given a closed form -/
elab "gs_noitn" : tactic => do
  if ((← instantiateMVars (← getMainTarget)).find? (·.isConstOf ``Gsv.itn)).isSome then throwError "loop without closed form"
syntax "gs_it" "[" Lean.Parser.Tactic.simpLemma,* "]" : tactic
macro_rules
  | `(tactic| gs_it [$ls,*]) => `(tactic| (gs_simp [$ls,*] <;> first
    | ((with_reducible apply is_iterR); refine iterR_itn2 _ (by first | (intro i y hi; gs_it [$ls,*]) | fail))
    | ((with_reducible apply is_iterR); refine iterR_itn1 _ (by first | (intro i y hi; gs_it [$ls,*]) | fail))
    | (with_reducible apply rhs2; gs_upd; with_reducible rfl)
    | (gs_upd1; with_reducible rfl)))
syntax "gs_loop" "[" Lean.Parser.Tactic.simpLemma,* "]" : tactic
macro_rules
  | `(tactic| gs_loop [$ls,*]) => `(tactic| (with_reducible (first | apply is_iterR | apply is_bind_iterR)); first
    | (refine iterR_build_adv _ ?_; intro i y t hi; gs_simp [$ls,*] <;> gs_ext)
    | (refine iterR_adv_build _ ?_; intro i y t hi; gs_simp [$ls,*] <;> gs_ext)
    | (refine bind_build_adv ?_ (by first | (intro i y t hi; gs_simp [$ls,*] <;> gs_ext) | fail) ?_)
    | (refine bind_adv_build ?_ (by first | (intro i y t hi; gs_simp [$ls,*] <;> gs_ext) | fail) ?_)
    | (refine iterR_build _ ?_; intro i y hi; gs_simp [$ls,*] <;> gs_ext)
    | (refine iterR_cols _ ?_; intro i y hi; gs_simp [$ls,*] <;> gs_ext)
    | (refine iterR_rows ?_; intro i y hi hy; gs_simp [hy, $ls,*] <;> gs_ext)
    | (refine iterR_rows_rev ?_; intro i y hi hy; gs_simp [hy, $ls,*] <;> gs_ext)
    | (refine iterR_accv _ ?_; intro i y hi; gs_simp [$ls,*] <;> gs_ext)
    | (refine iterR_accv' _ ?_; intro i y hi; gs_simp [$ls,*] <;> gs_ext)
    | (refine iterR_build_c _ ?_; intro i y hi; gs_simp [$ls,*] <;> gs_ext)
    | (refine iterR_c_build _ ?_; intro i y hi; gs_simp [$ls,*] <;> gs_ext)
    | (refine bind_build ?_ (by first | (intro i y hi; gs_simp [$ls,*] <;> gs_ext) | fail) ?_)
    | (refine bind_cols ?_ (by first | (intro i y hi; gs_simp [$ls,*] <;> gs_ext) | fail) ?_)
    | (refine bind_rows ?_ (by first | (intro i y hi hy; gs_simp [hy, $ls,*] <;> gs_ext) | fail) ?_)
    | (refine bind_rows_rev ?_ (by first | (intro i y hi hy; gs_simp [hy, $ls,*] <;> gs_ext) | fail) ?_)
    | (refine bind_accv ?_ (by first | (intro i y hi; gs_simp [$ls,*] <;> gs_ext) | fail) ?_)
    | (refine bind_accv' ?_ (by first | (intro i y hi; gs_simp [$ls,*] <;> gs_ext) | fail) ?_)
    | (refine bind_build_c ?_ (by first | (intro i y hi; gs_simp [$ls,*] <;> gs_ext) | fail) ?_)
    | (refine bind_c_build ?_ (by first | (intro i y hi; gs_simp [$ls,*] <;> gs_ext) | fail) ?_)
    -- entries of a matrix or list written in place
    | (refine (iterR_itn2 _ (by first | (intro i y hi; gs_it [$ls,*]) | fail)).trans ?_; gs_itn; gs_noitn)
    | (refine (iterR_itn1 _ (by first | (intro i y hi; gs_it [$ls,*]) | fail)).trans ?_; gs_itn; gs_noitn)
    | (refine bind_itn2 _ (by first | (intro i y hi; gs_it [$ls,*]) | fail) ?_; gs_itn; gs_noitn)
    | (refine bind_itn1 _ (by first | (intro i y hi; gs_it [$ls,*]) | fail) ?_; gs_itn; gs_noitn)
    -- loops over several values: each by itself
    | (gs_ind <;> [(gs_simp [$ls,*] <;> gs_ext); (intro i hi; gs_simp [$ls,*] <;> gs_ext)]; done)
    | (refine bind_rng ?_ (by first | (intro i x t hi; gs_simp [$ls,*] <;> rfl) | fail) ?_)
    | (refine bind_pair ?_ ?_ (by first | (intro i x y hi; gs_simp [$ls,*] <;> rfl) | fail) ?_)
    | (refine to_bind (bind_rng ?_ (by first | (intro i x t hi; gs_simp [$ls,*] <;> rfl) | fail) ?_))
    | (refine to_bind (bind_pair ?_ ?_ (by first | (intro i x y hi; gs_simp [$ls,*] <;> rfl) | fail) ?_))
    | (refine bind_rng1 ?_; gs_simp [$ls,*]; refine bind_rng ?_ (by first | (intro i x t hi; gs_simp [$ls,*] <;> rfl) | fail) ?_)
    | (refine bind_rng2 ?_; gs_simp [$ls,*]; refine bind_rng ?_ (by first | (intro i x t hi; gs_simp [$ls,*] <;> rfl) | fail) ?_)
    | (refine bind_rng2' ?_; gs_simp [$ls,*]; refine bind_rng ?_ (by first | (intro i x t hi; gs_simp [$ls,*] <;> rfl) | fail) ?_)
    -- nested loops
    | (refine iterR_build _ ?_; intro i y hi; gs_go [$ls,*]; done)
    | (refine iterR_cols _ ?_; intro i y hi; gs_go [$ls,*]; done)
    | (refine iterR_rows ?_; intro i y hi hy; gs_go [hy, $ls,*]; done)
    | (refine iterR_rows_rev ?_; intro i y hi hy; gs_go [hy, $ls,*]; done)
    | (refine bind_build ?_ (by first | (intro i y hi; gs_go [$ls,*]) | fail) ?_)
    | (refine bind_cols ?_ (by first | (intro i y hi; gs_go [$ls,*]) | fail) ?_)
    | (refine bind_rows ?_ (by first | (intro i y hi hy; gs_go [hy, $ls,*]) | fail) ?_)
    | (refine bind_rows_rev ?_ (by first | (intro i y hi hy; gs_go [hy, $ls,*]) | fail) ?_))
  | `(tactic| gs_go [$ls,*]) => `(tactic| ((gs_simp [$ls,*] <;> try (gs_ext; done)) <;> (repeat (gs_loop [$ls,*] <;> first | (gs_ext; done) | (try (gs_simp [$ls,*])))) <;> gs_ext))

@[gs] theorem bind_to_panic (x : Res α) : bind x (fun _ => (panic : Res β)) = panic := by cases x <;> rfl
theorem idxR_cons_zero (a : α) (l : List α) : idxR (a :: l) 0 = ok a := rfl

syntax "gs_comp" "[" Lean.Parser.Tactic.simpLemma,* "]" : tactic
macro_rules
  | `(tactic| gs_comp [$ls,*]) => `(tactic| (gs_simp [$ls,*] <;> first
      | done
      | rfl
      | (ext <;> simp [gs, io1, io2, ioT, W1, W2, pr, $ls,*] <;> first | done | rfl | abel | module)
      | (congr 1; ext <;> simp [gs, io1, io2, ioT, W1, W2, pr, $ls,*] <;> first | done | rfl | abel | module)
      | gs_ext
      | (simp only [pr_smul_left, pr_smul_right]; gs_ext)))

theorem dec_true {p : Prop} {i : Decidable p} : (@decide p i = true) = p := by simp
theorem dec_false {p : Prop} {i : Decidable p} : (@decide p i = false) = ¬ p := by simp
syntax "gs_bool" term : tactic
macro_rules
  | `(tactic| gs_bool $t) => `(tactic| first
      | done
      | rfl
      | (apply congrArg; apply Bool.eq_iff_iff.mpr; simp [$t:term]; done)
      | (apply Bool.eq_iff_iff.mpr; simp [$t:term]; done)
      | (apply congrArg; apply Bool.eq_iff_iff.mpr; simp [$t:term]; tauto)
      | (apply Bool.eq_iff_iff.mpr; simp [$t:term]; tauto)
      | (simp [$t:term]; done)
      | (simp only [sub_eq_zero, $t:term] <;> first | done | (simp; done) | tauto | (simp; tauto) | (split_ifs <;> simp_all; done))
      | (simp [$t:term]; split_ifs <;> simp_all; done)
      | ((try simp only [$t:term]); (try simp only [dec_true, dec_false]); split_ifs <;> (try apply congrArg) <;> (try apply Bool.eq_iff_iff.mpr) <;> simp only [dec_true, dec_false, Bool.and_eq_true, Bool.or_eq_true, Bool.not_eq_true', $t:term] at * <;> simp_all [dec_true, dec_false, sub_eq_zero]; done))

/-- case analysis on the undecided conditions -/
syntax "gs_split" "[" Lean.Parser.Tactic.simpLemma,* "]" : tactic
macro_rules
  | `(tactic| gs_split [$ls,*]) => `(tactic| (gs_simp [$ls,*] <;> (repeat' (first | done | rfl | omega | (split <;> gs_simp [$ls,*])))))
syntax "gs_mis" "[" Lean.Parser.Tactic.simpLemma,* "]" : tactic
macro_rules
  | `(tactic| gs_mis [$ls,*]) => `(tactic| (gs_split [$ls,*] <;> first | done | omega))

/-- a list of lists that does not have the accepted shape is refused -/
syntax "gs_badshape" ident ident "[" Lean.Parser.Tactic.simpLemma,* "]" : tactic
macro_rules
  | `(tactic| gs_badshape $l $h [$ls,*]) => `(tactic|
     (rcases $l:ident with _ | ⟨r0, _ | ⟨r1, _ | ⟨r2, l⟩⟩⟩ <;> (try (simp [idxR, headR, getOpt, bind_to_panic, allR, anyR, mapR, foldR, forR, toList_range, toList_range', unwrapR, $ls,*]; done)) <;>
      (rcases r0 with _ | ⟨a, _ | ⟨b, _ | ⟨c, r0⟩⟩⟩ <;> (try (simp [idxR, headR, getOpt, bind_to_panic, allR, anyR, mapR, foldR, forR, toList_range, toList_range', unwrapR, $ls,*]; done)) <;>
      (rcases r1 with _ | ⟨a', _ | ⟨b', _ | ⟨c', r1⟩⟩⟩ <;> (try (simp [idxR, headR, getOpt, bind_to_panic, allR, anyR, mapR, foldR, forR, toList_range, toList_range', unwrapR, $ls,*]; done)) <;>
      (simp at $h:ident)))))

/-- commitments -/
syntax "gs_com" "[" Lean.Parser.Tactic.simpLemma,* "]" : tactic
macro_rules
  | `(tactic| gs_com [$ls,*]) => `(tactic| gs_go [$ls,*])

/-- generation of the CRS: the draws may be made in any of the orders tried here -/
syntax "gs_crs1" "(" term ")" "[" Lean.Parser.Tactic.simpLemma,* "]" : tactic
syntax "gs_crs" "[" Lean.Parser.Tactic.simpLemma,* "]" : tactic
macro_rules
  | `(tactic| gs_crs1 ($t) [$ls,*]) => `(tactic| (
      refine ⟨_, _, _, _, _, _, _, ⟨$t, (by show List.Perm _ (List.range 6); decide), ⟨rfl, rfl, rfl, rfl, rfl, rfl, rfl⟩⟩, ?_⟩
      gs_simp [mkCrs, smul_smul, $ls,*] <;> first
        | done
        | gs_ext
        | (simp only [Env.e_smul_left, Env.e_smul_right, smul_smul]; gs_ext)))
  | `(tactic| gs_crs [$ls,*]) => `(tactic| first
      | gs_crs1 ([0, 1, 2, 3, 4, 5]) [$ls,*]
      | gs_crs1 ([0, 1, 2, 3, 5, 4]) [$ls,*]
      | gs_crs1 ([0, 1, 2, 4, 3, 5]) [$ls,*]
      | gs_crs1 ([0, 1, 2, 4, 5, 3]) [$ls,*]
      | gs_crs1 ([0, 1, 2, 5, 3, 4]) [$ls,*]
      | gs_crs1 ([0, 1, 2, 5, 4, 3]) [$ls,*]
      | gs_crs1 ([0, 1, 3, 2, 4, 5]) [$ls,*]
      | gs_crs1 ([0, 1, 3, 2, 5, 4]) [$ls,*]
      | gs_crs1 ([0, 1, 3, 4, 2, 5]) [$ls,*]
      | gs_crs1 ([0, 1, 3, 4, 5, 2]) [$ls,*]
      | gs_crs1 ([0, 1, 3, 5, 2, 4]) [$ls,*]
      | gs_crs1 ([0, 1, 3, 5, 4, 2]) [$ls,*]
      | gs_crs1 ([0, 1, 4, 2, 3, 5]) [$ls,*]
      | gs_crs1 ([0, 1, 4, 2, 5, 3]) [$ls,*]
      | gs_crs1 ([0, 1, 4, 3, 2, 5]) [$ls,*]
      | gs_crs1 ([0, 1, 4, 3, 5, 2]) [$ls,*]
      | gs_crs1 ([0, 1, 4, 5, 2, 3]) [$ls,*]
      | gs_crs1 ([0, 1, 4, 5, 3, 2]) [$ls,*]
      | gs_crs1 ([0, 1, 5, 2, 3, 4]) [$ls,*]
      | gs_crs1 ([0, 1, 5, 2, 4, 3]) [$ls,*]
      | gs_crs1 ([0, 1, 5, 3, 2, 4]) [$ls,*]
      | gs_crs1 ([0, 1, 5, 3, 4, 2]) [$ls,*]
      | gs_crs1 ([0, 1, 5, 4, 2, 3]) [$ls,*]
      | gs_crs1 ([0, 1, 5, 4, 3, 2]) [$ls,*]
      | gs_crs1 ([1, 0, 2, 3, 4, 5]) [$ls,*]
      | gs_crs1 ([1, 0, 2, 3, 5, 4]) [$ls,*]
      | gs_crs1 ([1, 0, 2, 4, 3, 5]) [$ls,*]
      | gs_crs1 ([1, 0, 2, 4, 5, 3]) [$ls,*]
      | gs_crs1 ([1, 0, 2, 5, 3, 4]) [$ls,*]
      | gs_crs1 ([1, 0, 2, 5, 4, 3]) [$ls,*]
      | gs_crs1 ([1, 0, 3, 2, 4, 5]) [$ls,*]
      | gs_crs1 ([1, 0, 3, 2, 5, 4]) [$ls,*]
      | gs_crs1 ([1, 0, 3, 4, 2, 5]) [$ls,*]
      | gs_crs1 ([1, 0, 3, 4, 5, 2]) [$ls,*]
      | gs_crs1 ([1, 0, 3, 5, 2, 4]) [$ls,*]
      | gs_crs1 ([1, 0, 3, 5, 4, 2]) [$ls,*]
      | gs_crs1 ([1, 0, 4, 2, 3, 5]) [$ls,*]
      | gs_crs1 ([1, 0, 4, 2, 5, 3]) [$ls,*]
      | gs_crs1 ([1, 0, 4, 3, 2, 5]) [$ls,*]
      | gs_crs1 ([1, 0, 4, 3, 5, 2]) [$ls,*]
      | gs_crs1 ([1, 0, 4, 5, 2, 3]) [$ls,*]
      | gs_crs1 ([1, 0, 4, 5, 3, 2]) [$ls,*]
      | gs_crs1 ([1, 0, 5, 2, 3, 4]) [$ls,*]
      | gs_crs1 ([1, 0, 5, 2, 4, 3]) [$ls,*]
      | gs_crs1 ([1, 0, 5, 3, 2, 4]) [$ls,*]
      | gs_crs1 ([1, 0, 5, 3, 4, 2]) [$ls,*]
      | gs_crs1 ([1, 0, 5, 4, 2, 3]) [$ls,*]
      | gs_crs1 ([1, 0, 5, 4, 3, 2]) [$ls,*]
      | gs_crs1 ([0, 2, 4, 1, 3, 5]) [$ls,*]
      | gs_crs1 ([0, 2, 1, 3, 4, 5]) [$ls,*]
      | gs_crs1 ([0, 2, 1, 3, 5, 4]) [$ls,*]
      | gs_crs1 ([2, 3, 4, 5, 0, 1]) [$ls,*]
      | gs_crs1 ([0, 4, 2, 1, 5, 3]) [$ls,*]
      | gs_crs1 ([2, 4, 3, 5, 0, 1]) [$ls,*]
      | gs_crs1 ([2, 0, 3, 1, 4, 5]) [$ls,*])

theorem iff_of_diff {M : Type} [AddCommGroup M] {a b c d : M} (h : a - b = c - d) : (a = b) ↔ (c = d) := by
  rw [← sub_eq_zero, h, sub_eq_zero]
theorem iff_of_diff' {M : Type} [AddCommGroup M] {a b c d : M} (h : a - b = d - c) : (a = b) ↔ (c = d) := by
  rw [← sub_eq_zero, h, sub_eq_zero, eq_comm]
/-- verification: the equation decided -/
syntax "gs_ver" "[" Lean.Parser.Tactic.simpLemma,* "]" : tactic
macro_rules
  | `(tactic| gs_ver [$ls,*]) => `(tactic| (gs_simp [$ls,*, idxR_cons_zero] <;> first
      | done
      | rfl
      | (refine decide_eq_decide.mpr (Eq.congr ?_ ?_) <;> gs_ext)
      | (refine decide_eq_decide.mpr (eq_comm.trans (Eq.congr ?_ ?_)) <;> gs_ext)
      | (refine decide_eq_decide.mpr ?_; refine iff_of_diff ?_; gs_ext)
      | (refine decide_eq_decide.mpr ?_; refine iff_of_diff' ?_; gs_ext)
      | (refine decide_eq_decide.mpr ?_; refine iff_of_diff ?_; gs_bil)
      | (refine decide_eq_decide.mpr ?_; refine iff_of_diff' ?_; gs_bil)))

/-- never `ok true` -/
syntax "gs_refuse" "[" Lean.Parser.Tactic.simpLemma,* "]" : tactic
macro_rules
  | `(tactic| gs_refuse [$ls,*]) => `(tactic| (gs_split [$ls,*] <;> first | done | omega | simp_all))
syntax "gs_refuse_type" ident ident "[" Lean.Parser.Tactic.simpLemma,* "]" : tactic
macro_rules
  | `(tactic| gs_refuse_type $ty $h [$ls,*]) => `(tactic| (gs_split [$ls,*] <;> first | done | omega | simp_all))
theorem peel_l {c : Prop} [Decidable c] {x : Res α} (h : ¬ c → x = panic) : (if c then panic else x) = panic := by
  split
  · rfl
  · exact h ‹_›
theorem peel_r {c : Prop} [Decidable c] {x : Res α} (h : c → x = panic) : (if c then x else panic) = panic := by
  split
  · exact h ‹_›
  · rfl
theorem peel_idx {n i : ℕ} {x : ℕ → α} {f : α → Res β} (h : i < n → f (x i) = panic) : bind (idxR (vec n x) i) f = panic := by
  rw [idxR_vec]; split
  · exact h ‹_›
  · rfl
theorem peel_bl {c : Prop} [Decidable c] {x : Res α} {f : α → Res β} (h : ¬ c → bind x f = panic) : bind (if c then panic else x) f = panic := by
  split
  · rfl
  · exact h ‹_›
theorem peel_br {c : Prop} [Decidable c] {x : Res α} {f : α → Res β} (h : c → bind x f = panic) : bind (if c then x else panic) f = panic := by
  split
  · exact h ‹_›
  · rfl
theorem peel_assoc {x : Res α} {f : α → Res β} {g : β → Res γ} (h : bind x (fun a => bind (f a) g) = panic) :
    bind (bind x f) g = panic := by cases x <;> simp_all
/-- the assertions at the head of a function, without simplifying what follows them -/
macro "gs_peel" : tactic => `(tactic| (
  (try dsimp only []);
  repeat (first
    | (refine peel_l fun hp => ?_)
    | (refine peel_r fun hp => ?_)
    | (refine peel_idx fun hp => ?_)
    | (refine peel_bl fun hp => ?_)
    | (refine peel_br fun hp => ?_)
    | (with_reducible refine peel_assoc ?_; try dsimp only [])
    | (rw [bind_ok]))
  (try simp only [length_vec, Bool.not_eq_true', decide_eq_true_eq, decide_eq_false_iff_not, Bool.not_eq_false', not_true_eq_false, not_false_eq_true,
    decide_not, Bool.not_not, beq_iff_eq, bne_iff_ne, ne_eq, not_not, Bool.false_eq_true, Bool.true_eq_false, Bool.and_eq_true, Bool.or_eq_true] at *)))
/-- `x` is zero, equal to `y`, or neither -/
syntax "gs_tri" ident term : tactic
macro_rules
  | `(tactic| gs_tri $x $y) => `(tactic| (rcases Nat.eq_zero_or_pos $x:ident with hz | hz <;> [subst hz; (rcases Nat.lt_trichotomy $x:ident $y with he | he | he <;> [skip; subst he; skip])]))
/-- the prover -/
syntax "gs_prove" num num "[" Lean.Parser.Tactic.simpLemma,* "]" : tactic
macro_rules
  | `(tactic| gs_prove $q $p [$ls,*]) => `(tactic| first
      | (refine ⟨fun i j => $p * i + j, places_row $q $p (by decide) (by decide), ?_⟩; intros; rename_i T hT; subst hT
         gs_simp [$ls,*] <;> gs_ext)
      | (refine ⟨fun i j => i + $q * j, places_col $q $p (by decide) (by decide), ?_⟩; intros; rename_i T hT; subst hT
         gs_simp [$ls,*] <;> gs_ext)
      | (refine ⟨fun i j => $p * i + j, places_row $q $p (by decide) (by decide), ?_⟩; intros; rename_i T hT; subst hT
         gs_go [$ls,*])
      | (refine ⟨fun i j => i + $q * j, places_col $q $p (by decide) (by decide), ?_⟩; intros; rename_i T hT; subst hT
         gs_go [$ls,*]))
syntax "gs_dims" ident ident ident ident ident ident num num "[" Lean.Parser.Tactic.simpLemma,* "]" : tactic
macro_rules
  | `(tactic| gs_dims $m $n $m' $n' $np $nt $p $q [$ls,*]) => `(tactic| (
      gs_simp [$ls,*, idxR_cons_zero] <;> (try (first | done | simp_all; done)) <;>
        (gs_tri $m' $m <;> gs_tri $n' $n <;> first
          | (gs_simp [$ls,*, idxR_cons_zero]; done)
          | (gs_tri $np $p <;> gs_tri $nt $q <;> first | (exfalso; omega) | (gs_simp [$ls,*, idxR_cons_zero]; done) | (gs_split [$ls,*, idxR_cons_zero] <;> first | done | omega | simp_all)))))
/-- substitute `x := y` if it is known, or else distinguish -/
syntax "gs_same" ident term : tactic
macro_rules
  | `(tactic| gs_same $x $y) => `(tactic| first
      | (have he : $y = $x := by omega
         subst he)
      | (by_cases he : $y = $x
         · subst he
         · skip))
syntax "gs_provemis" num num ident ident ident ident ident ident ident ident ident ident ident ident ident "[" Lean.Parser.Tactic.simpLemma,* "]" : tactic
macro_rules
  | `(tactic| gs_provemis $p0 $q0 $m $n $na $mb $mx $ny $mr $nr $p $q $hm $hn $hne [$ls,*]) => `(tactic| (
      gs_peel
      gs_same $mr $m <;> (gs_same $nr $n <;> (gs_same $p $p0 <;> (gs_same $q $q0 <;> (gs_same $mx $m <;> (gs_same $ny $n))))) <;>
        ((try gs_simp [$ls,*]) <;> gs_tri $na $n <;> gs_tri $mb $m <;> first | (exfalso; omega) | (gs_simp [$ls,*]; done) | (gs_split [$ls,*]))
      ))
/-- serialization: what is written determines the encoding, which is then shown to be read back -/
syntax "gs_ser" ident "[" Lean.Parser.Tactic.simpLemma,* "]" "[" Lean.Parser.Tactic.simpLemma,* "]" : tactic
macro_rules
  | `(tactic| gs_ser $fits [$ls,*] [$us,*]) => `(tactic| (
      constructor
      intro c v
      constructor
      case ser =>
        intro x w hx; simp only [$fits:ident, $us,*] at hx ⊢
        (try cases_type* And)
        gs_simp [$ls,*]
        exact rfl
      case de =>
        intro x r hx; simp only [$fits:ident, $us,*] at hx ⊢
        (try cases_type* And)
        gs_simp [$ls,*]
      case sz =>
        intro x hx; simp only [$fits:ident, $us,*] at hx ⊢
        (try cases_type* And)
        gs_simp [$ls,*] <;> omega))

open Lean Elab Command Meta in
/-- `#trim t n`: print which of the first `n` hypotheses (after `E`) theorem `t` uses, and define `t.used` without the others -/
elab "#trim " id:ident k:num : command => do
  let n ← liftCoreM <| realizeGlobalConstNoOverload id
  liftTermElabM do
    let some (.thmInfo ci) := (← getEnv).find? n | throwError "no theorem {n}"
    let used ← lambdaBoundedTelescope ci.value (k.getNat + 1) fun xs body => do
      let E := xs[0]!
      let hs := xs[1:].toArray
      let fv := (collectFVars {} body).fvarSet
      let keep := hs.filter fun h => fv.contains h.fvarId!
      let val ← mkLambdaFVars (#[E] ++ keep) body
      let ty ← mkForallFVars (#[E] ++ keep) (← inferType body)
      let ty ← instantiateMVars ty
      addDecl (.thmDecl { name := n ++ `used, levelParams := ci.levelParams, type := ty, value := val })
      let mut r := #[]
      for h in keep do
        r := r.push (toString (← h.fvarId!.getUserName))
      return r
    let ax ← Lean.collectAxioms (n ++ `used)
    logInfo m!"USED {n} {" ".intercalate used.toList} AXIOMS {ax.toList}"
end Gsv
