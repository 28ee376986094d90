import Gsv.Attr
import Mathlib.Algebra.BigOperators.Group.Finset.Basic
import Mathlib.Algebra.BigOperators.Intervals
import Mathlib.Algebra.BigOperators.Ring.Finset
import Mathlib.Algebra.Module.BigOperators
import Mathlib.Tactic.Abel
import Mathlib.Tactic.Module
import Mathlib.Tactic.Ring
import Mathlib.Tactic.LinearCombination

/-! Semantics of the extracted programs: a computation returns a value or panics.
Lists model `Vec`, slices, arrays and (evaluated) iterators. -/

namespace Gsv

inductive Res (α : Type) where
  | ok (a : α)
  | panic
deriving Repr

variable {α β γ σ : Type}

namespace Res
def bind (x : Res α) (f : α → Res β) : Res β :=
  match x with
  | ok a => f a
  | panic => panic
@[gs, simp] theorem bind_ok (a : α) (f : α → Res β) : bind (ok a) f = f a := rfl
@[gs, simp] theorem bind_panic (f : α → Res β) : bind panic f = panic := rfl
@[gs] theorem bind_ite {c : Prop} [Decidable c] (a b : Res α) (f : α → Res β) :
    bind (if c then a else b) f = if c then bind a f else bind b f := by split <;> rfl
@[gs] theorem bind_assoc (x : Res α) (f : α → Res β) (g : β → Res γ) :
    bind (bind x f) g = bind x (fun a => bind (f a) g) := by cases x <;> rfl
@[gs, simp] theorem ok_ne_panic (a : α) : (ok a = panic) = False := by simp
@[gs, simp] theorem panic_ne_ok (a : α) : (panic = ok a) = False := by simp
end Res
open Res

/-- control flow out of a loop body -/
inductive Ctl (σ ρ : Type) where
  | next (s : σ)
  | brk (s : σ)
  | ret (r : ρ)

/-! ### Models of the list primitives -/

def idxR (l : List α) (i : ℕ) : Res α :=
  match l[i]? with
  | some a => ok a
  | none => panic

def setR (l : List α) (i : ℕ) (a : α) : Res (List α) :=
  if i < l.length then ok (l.set i a) else panic

def push (l : List α) (a : α) : List α := l ++ [a]

def subR (a b : ℕ) : Res ℕ := if b ≤ a then ok (a - b) else panic

def mapR (f : α → Res β) : List α → Res (List β)
  | [] => ok []
  | a :: l => bind (f a) fun b => bind (mapR f l) fun r => ok (b :: r)

/-- map with a closure that also updates captured state -/
def mapS (f : α → σ → Res (β × σ)) : List α → σ → Res (List β × σ)
  | [], s => ok ([], s)
  | a :: l, s => bind (f a s) fun b => bind (mapS f l b.2) fun r => ok (b.1 :: r.1, r.2)

def foldR (f : σ → α → Res σ) : σ → List α → Res σ
  | s, [] => ok s
  | s, a :: l => bind (f s a) fun s' => foldR f s' l

/-- `for x in l { s := f x s }` -/
def forR (l : List α) (s : σ) (f : α → σ → Res σ) : Res σ := foldR (fun s a => f a s) s l

/-- `for` with `break`/`return` -/
def forC {ρ : Type} : List α → σ → (α → σ → Res (Ctl σ ρ)) → Res (Ctl σ ρ)
  | [], s, _ => ok (.next s)
  | a :: l, s, f => bind (f a s) fun c =>
      match c with
      | .next s' => forC l s' f
      | c => ok c

@[inline] def Ctl.elim {ρ τ : Type} (c : Ctl σ ρ) (n : σ → τ) (b : σ → τ) (r : ρ → τ) : τ :=
  match c with
  | .next s => n s
  | .brk s => b s
  | .ret x => r x

/-- `for x in l.iter_mut()` -/
def forMutR : List α → σ → (α → σ → Res (α × σ)) → Res (List α × σ)
  | l, s, f => mapS f l s

def allR (f : α → Res Bool) : List α → Res Bool
  | [] => ok true
  | a :: l => bind (f a) fun b => if b then allR f l else ok false
def anyR (f : α → Res Bool) : List α → Res Bool
  | [] => ok false
  | a :: l => bind (f a) fun b => if b then ok true else anyR f l
def filterR (f : α → Res Bool) : List α → Res (List α)
  | [] => ok []
  | a :: l => bind (f a) fun b => bind (filterR f l) fun r => ok (if b then a :: r else r)

def unwrapR : Option α → Res α
  | some a => ok a
  | none => panic

def headR : List α → Res α
  | a :: _ => ok a
  | [] => panic

structure URange where
  lo : ℕ
  hi : ℕ
deriving DecidableEq
def URange.toList (r : URange) : List ℕ := List.range' r.lo (r.hi - r.lo)

def sliceR (l : List α) (a b : ℕ) : Res (List α) :=
  if a ≤ b ∧ b ≤ l.length then ok ((l.take b).drop a) else panic

def filterMapR (f : α → Res (Option β)) : List α → Res (List β)
  | [] => ok []
  | a :: l => bind (f a) fun b => bind (filterMapR f l) fun r => ok (match b with | some x => x :: r | none => r)
def findR (f : α → Res Bool) : List α → Res (Option α)
  | [] => ok none
  | a :: l => bind (f a) fun b => if b then ok (some a) else findR f l
def positionR (f : α → Res Bool) : List α → ℕ → Res (Option ℕ)
  | [], _ => ok none
  | a :: l, i => bind (f a) fun b => if b then ok (some i) else positionR f l (i + 1)
def takeWhileR (f : α → Res Bool) : List α → Res (List α)
  | [] => ok []
  | a :: l => bind (f a) fun b => if b then bind (takeWhileR f l) fun r => ok (a :: r) else ok []
def skipWhileR (f : α → Res Bool) : List α → Res (List α)
  | [] => ok []
  | a :: l => bind (f a) fun b => if b then skipWhileR f l else ok (a :: l)
/-- the list `[x 0, ..., x (n-1)]` -/
def vec (n : ℕ) (x : ℕ → α) : List α := (List.range n).map x

def chunksR (l : List α) (n : ℕ) : Res (List (List α)) :=
  if n = 0 then panic else ok (vec ((l.length + n - 1) / n) fun i => (l.drop (i * n)).take n)
def chunksExactR (l : List α) (n : ℕ) : Res (List (List α)) :=
  if n = 0 then panic else ok (vec (l.length / n) fun i => (l.drop (i * n)).take n)
def splitFirst : List α → Option (α × List α)
  | [] => none
  | a :: l => some (a, l)
def splitLast (l : List α) : Option (α × List α) := l.getLast?.map fun a => (a, l.dropLast)
def copyR (l m : List α) : Res (List α) := if l.length = m.length then ok m else panic
def isOkB : Except ε α → Bool
  | .ok _ => true
  | .error _ => false

/-- a number nothing is known about (sizes of types) -/
opaque someN : String → ℕ
def toArr (n : ℕ) (l : List α) : Except Unit (List α) := if l.length = n then .ok l else .error ()
/-- the scheduling of a parallel reduction is unknown: its result is only known for an associative operation
with a neutral element -/
noncomputable def parReduceR (op : α → α → Res α) (e : α) (l : List α) : Res α :=
  open Classical in
  if ∃ f : α → α → α, (∀ a b, op a b = ok (f a b)) ∧ (∀ a b c, f (f a b) c = f a (f b c)) ∧ (∀ a, f e a = a ∧ f a e = a)
  then foldR op e l else panic
def windowsR (l : List α) (n : ℕ) : Res (List (List α)) :=
  if n = 0 then panic else ok (vec (l.length + 1 - n) fun i => (l.drop i).take n)
def stepByR (l : List α) (n : ℕ) : Res (List α) :=
  if n = 0 then panic else ok ((List.range ((l.length + n - 1) / n)).filterMap fun i => l[i * n]?)
def insertR (l : List α) (i : ℕ) (x : α) : Res (List α) :=
  if i ≤ l.length then ok (l.take i ++ x :: l.drop i) else panic
def splitOffR (l : List α) (i : ℕ) : Res (List α × List α) :=
  if i ≤ l.length then ok (l.take i, l.drop i) else panic
/-- `split`: what is drained, what remains -/
def drainR (l : List α) (a b : ℕ) : Res (List α × List α) :=
  if a ≤ b ∧ b ≤ l.length then ok ((l.take b).drop a, l.take a ++ l.drop b) else panic
def divNR (a b : ℕ) : Res ℕ := if b = 0 then panic else ok (a / b)
def modNR (a b : ℕ) : Res ℕ := if b = 0 then panic else ok (a % b)

/-! ### Canonical forms -/

/-- the `m × n` matrix with entries `A i j` -/
abbrev mat (m n : ℕ) (A : ℕ → ℕ → α) : List (List α) := vec m fun i => vec n (A i)

def tabR (n : ℕ) (F : ℕ → Res α) : Res (List α) := mapR F (List.range n)

def iterR (n : ℕ) (s : σ) (F : ℕ → σ → Res σ) : Res σ := forR (List.range n) s F

def sel2 (a b : α) : ℕ → α := fun i => if i = 0 then a else b
def lit1 (a : α) : List α := [a]
def lit2 (a b : α) : List α := [a, b]

theorem vec_eq (l : List α) [Inhabited α] : l = vec l.length (fun i => l.getD i default) := by
  apply List.ext_getElem <;> simp [vec]
  intro i h; simp [h]

theorem exists_vec [Inhabited α] (l : List α) : ∃ x : ℕ → α, l = vec l.length x := ⟨_, vec_eq l⟩

@[gs, simp] theorem length_vec (n : ℕ) (x : ℕ → α) : (vec n x).length = n := by simp [vec]
@[gs, simp] theorem vec_zero (x : ℕ → α) : vec 0 x = [] := rfl
@[gs] theorem isEmpty_vec (n : ℕ) (x : ℕ → α) : (vec n x).isEmpty = decide (n = 0) := by
  cases n <;> simp [vec, List.range_succ]
theorem getElem?_vec (n : ℕ) (x : ℕ → α) (i : ℕ) : (vec n x)[i]? = if i < n then some (x i) else none := by
  simp only [vec, List.getElem?_map]
  split
  · rw [List.getElem?_range ‹_›]; rfl
  · rw [List.getElem?_eq_none] <;> simp; omega
@[gs] theorem idxR_vec (n : ℕ) (x : ℕ → α) (i : ℕ) :
    idxR (vec n x) i = if i < n then ok (x i) else panic := by
  simp only [idxR, getElem?_vec]; split <;> simp_all
@[gs] theorem idxR_nil (i : ℕ) : idxR ([] : List α) i = panic := rfl
theorem vec_succ (n : ℕ) (x : ℕ → α) : vec (n+1) x = vec n x ++ [x n] := by
  simp [vec, List.range_succ]
theorem vec_succ' (n : ℕ) (x : ℕ → α) : vec (n+1) x = x 0 :: vec n (fun i => x (i+1)) := by
  simp [vec, List.range_succ_eq_map, List.map_map, Function.comp_def]
@[congr] theorem vec_congr {n n' : ℕ} {x y : ℕ → α} (h : n = n') (hx : ∀ i, i < n' → x i = y i) :
    vec n x = vec n' y := by
  subst h; simp only [vec]; apply List.map_congr_left; intro i hi; exact hx i (by simpa using hi)
theorem vec_inj {n : ℕ} {x y : ℕ → α} : vec n x = vec n y ↔ ∀ i, i < n → x i = y i := by
  constructor
  · intro h i hi
    have := congrArg (fun l => l[i]?) h
    simpa only [getElem?_vec, hi, if_true, Option.some.injEq] using this
  · exact fun h => vec_congr rfl h
@[gs] theorem lit1_eq (a : α) : lit1 a = vec 1 (fun _ => a) := rfl
@[gs] theorem lit2_eq (a b : α) : lit2 a b = vec 2 (sel2 a b) := rfl
@[gs high] theorem lit2_vec (n : ℕ) (x y : ℕ → α) :
    lit2 (vec n x) (vec n y) = vec 2 (fun i => vec n fun j => sel2 (x j) (y j) i) := by
  simp only [lit2, vec, List.range_succ, List.range_zero, List.nil_append, List.map_append, List.map_cons, List.map_nil]; rfl
@[gs, simp] theorem sel2_zero (a b : α) : sel2 a b 0 = a := id rfl
@[gs, simp] theorem sel2_one (a b : α) : sel2 a b 1 = b := id rfl
/-- longer literal lists -/
def keep3 (a b c : α) : ℕ → α := fun i => if i = 0 then a else if i = 1 then b else c
def keep4 (a b c d : α) : ℕ → α := fun i => if i = 0 then a else if i = 1 then b else if i = 2 then c else d
def keep5 (a b c d e : α) : ℕ → α := fun i => if i = 0 then a else if i = 1 then b else if i = 2 then c else if i = 3 then d else e
def keep6 (a b c d e f : α) : ℕ → α :=
  fun i => if i = 0 then a else if i = 1 then b else if i = 2 then c else if i = 3 then d else if i = 4 then e else f
def lit3 (a b c : α) : List α := [a, b, c]
@[gs] theorem lit3_eq (a b c : α) : lit3 a b c = vec 3 (keep3 a b c) := rfl
def lit4 (a b c d : α) : List α := [a, b, c, d]
@[gs] theorem lit4_eq (a b c d : α) : lit4 a b c d = vec 4 (keep4 a b c d) := rfl
def lit5 (a b c d e : α) : List α := [a, b, c, d, e]
@[gs] theorem lit5_eq (a b c d e : α) : lit5 a b c d e = vec 5 (keep5 a b c d e) := rfl
def lit6 (a b c d e f : α) : List α := [a, b, c, d, e, f]
@[gs] theorem lit6_eq (a b c d e f : α) : lit6 a b c d e f = vec 6 (keep6 a b c d e f) := rfl
section
variable (a b c d e f : α)
@[gs, simp] theorem keep3_0 : keep3 a b c 0 = a := id rfl
@[gs, simp] theorem keep3_1 : keep3 a b c 1 = b := id rfl
@[gs, simp] theorem keep3_2 : keep3 a b c 2 = c := id rfl
@[gs, simp] theorem keep4_0 : keep4 a b c d 0 = a := id rfl
@[gs, simp] theorem keep4_1 : keep4 a b c d 1 = b := id rfl
@[gs, simp] theorem keep4_2 : keep4 a b c d 2 = c := id rfl
@[gs, simp] theorem keep4_3 : keep4 a b c d 3 = d := id rfl
@[gs, simp] theorem keep5_0 : keep5 a b c d e 0 = a := id rfl
@[gs, simp] theorem keep5_1 : keep5 a b c d e 1 = b := id rfl
@[gs, simp] theorem keep5_2 : keep5 a b c d e 2 = c := id rfl
@[gs, simp] theorem keep5_3 : keep5 a b c d e 3 = d := id rfl
@[gs, simp] theorem keep5_4 : keep5 a b c d e 4 = e := id rfl
@[gs, simp] theorem keep6_0 : keep6 a b c d e f 0 = a := id rfl
@[gs, simp] theorem keep6_1 : keep6 a b c d e f 1 = b := id rfl
@[gs, simp] theorem keep6_2 : keep6 a b c d e f 2 = c := id rfl
@[gs, simp] theorem keep6_3 : keep6 a b c d e f 3 = d := id rfl
@[gs, simp] theorem keep6_4 : keep6 a b c d e f 4 = e := id rfl
@[gs, simp] theorem keep6_5 : keep6 a b c d e f 5 = f := id rfl
end
@[gs] theorem toList_range (n : ℕ) : URange.toList ⟨0, n⟩ = vec n (fun i => i) := by
  simp [URange.toList, vec, List.range_eq_range']
@[gs] theorem toList_range' (a n : ℕ) : URange.toList ⟨a, n⟩ = vec (n - a) (fun i => a + i) := by
  simp [URange.toList, vec, List.range'_eq_map_range]
theorem map_vec (f : α → β) (n : ℕ) (x : ℕ → α) : (vec n x).map f = vec n (fun i => f (x i)) := by
  simp [vec, Function.comp_def]
attribute [gs] map_vec
@[gs] theorem vec_append (m n : ℕ) (x y : ℕ → α) :
    vec m x ++ vec n y = vec (m + n) (fun i => if i < m then x i else y (i - m)) := by
  apply List.ext_getElem?; intro i
  rw [List.getElem?_append]
  simp only [length_vec, getElem?_vec]
  split_ifs <;> first | rfl | omega
@[gs] theorem push_vec (n : ℕ) (x : ℕ → α) (a : α) :
    push (vec n x) a = vec (n+1) (fun i => if i < n then x i else a) := by
  have := vec_append n 1 x (fun _ => a)
  simpa [push, vec] using this
@[gs] theorem setR_vec (n : ℕ) (x : ℕ → α) (i : ℕ) (a : α) :
    setR (vec n x) i a = if i < n then ok (vec n (fun j => if j = i then a else x j)) else panic := by
  simp only [setR, length_vec]
  split
  · congr 1
    apply List.ext_getElem?; intro j
    rw [List.getElem?_set]
    simp only [length_vec, getElem?_vec]
    split_ifs <;> first | rfl | omega
  · rfl

/-! ### Loops and iterator pipelines on canonical lists -/

theorem mapR_append (f : α → Res β) (l l' : List α) :
    mapR f (l ++ l') = bind (mapR f l) fun r => bind (mapR f l') fun r' => ok (r ++ r') := by
  induction l with
  | nil => simp only [List.nil_append, mapR, bind_ok]; cases mapR f l' <;> rfl
  | cons a l ih =>
    simp only [List.cons_append, mapR, ih]
    cases f a <;> simp
    cases mapR f l <;> simp
    cases mapR f l' <;> simp

theorem mapR_map (f : β → Res γ) (g : α → β) (l : List α) : mapR f (l.map g) = mapR (fun a => f (g a)) l := by
  induction l with
  | nil => rfl
  | cons a l ih => simp [mapR, ih]

@[gs] theorem mapR_vec (f : α → Res β) (n : ℕ) (x : ℕ → α) : mapR f (vec n x) = tabR n (fun i => f (x i)) := by
  simp [vec, tabR, mapR_map]
@[gs] theorem mapR_nil (f : α → Res β) : mapR f [] = ok [] := rfl
theorem mapR_congr {f g : α → Res β} {l : List α} (h : ∀ a ∈ l, f a = g a) : mapR f l = mapR g l := by
  induction l with
  | nil => rfl
  | cons a l ih =>
    simp only [mapR]
    rw [h a (by simp), ih (fun a ha => h a (by simp [ha]))]
@[congr] theorem tabR_congr {n n' : ℕ} {F G : ℕ → Res α} (h : n = n') (hx : ∀ i, i < n' → F i = G i) :
    tabR n F = tabR n' G := by
  subst h; exact mapR_congr (fun a ha => hx a (by simpa using ha))
theorem mapR_ok (g : α → β) (l : List α) : mapR (fun a => ok (g a)) l = ok (l.map g) := by
  induction l with
  | nil => rfl
  | cons a l ih => simp [mapR, ih]
@[gs] theorem tabR_ok (n : ℕ) (g : ℕ → α) : tabR n (fun i => ok (g i)) = ok (vec n g) := by
  simp [tabR, mapR_ok, vec]
@[gs] theorem tabR_zero (F : ℕ → Res α) : tabR 0 F = ok [] := rfl
theorem tabR_panic (n : ℕ) (F : ℕ → Res α) (k : ℕ) (hk : k < n) (h : F k = panic) : tabR n F = panic := by
  obtain ⟨l, l', e⟩ : ∃ l l', List.range n = l ++ k :: l' := List.append_of_mem (by simpa using hk)
  rw [tabR, e, mapR_append]
  simp only [mapR, h, bind_panic]
  cases mapR F l <;> rfl
@[gs] theorem tabR_panic' (n : ℕ) : tabR n (fun _ => (panic : Res α)) = if n = 0 then ok [] else panic := by
  split
  · subst_vars; rfl
  · exact tabR_panic n _ 0 (by omega) rfl

theorem foldR_map (f : σ → β → Res σ) (g : α → β) (s : σ) (l : List α) :
    foldR f s (l.map g) = foldR (fun s a => f s (g a)) s l := by
  induction l generalizing s with
  | nil => rfl
  | cons a l ih => simp [foldR, ih]
theorem foldR_append (f : σ → α → Res σ) (s : σ) (l l' : List α) :
    foldR f s (l ++ l') = bind (foldR f s l) fun s => foldR f s l' := by
  induction l generalizing s with
  | nil => rfl
  | cons a l ih =>
    simp only [List.cons_append, foldR]
    cases f s a <;> simp [ih]
@[gs] theorem forR_vec (n : ℕ) (x : ℕ → α) (s : σ) (f : α → σ → Res σ) :
    forR (vec n x) s f = iterR n s (fun i s => f (x i) s) := by
  simp [vec, forR, iterR, foldR_map]
@[gs] theorem foldR_vec (n : ℕ) (x : ℕ → α) (s : σ) (f : σ → α → Res σ) :
    foldR f s (vec n x) = iterR n s (fun i s => f s (x i)) := by
  simp [vec, forR, iterR, foldR_map]
@[gs] theorem iterR_zero (s : σ) (F : ℕ → σ → Res σ) : iterR 0 s F = ok s := rfl
theorem iterR_succ (n : ℕ) (s : σ) (F : ℕ → σ → Res σ) :
    iterR (n+1) s F = bind (iterR n s F) (F n) := by
  simp only [iterR, forR, List.range_succ, foldR_append, foldR]
  congr 1; funext s; cases F n s <;> rfl
@[congr] theorem iterR_congr {n n' : ℕ} {s s' : σ} {F G : ℕ → σ → Res σ} (h : n = n') (hs : s = s')
    (hx : ∀ i, i < n' → ∀ t, F i t = G i t) : iterR n s F = iterR n' s' G := by
  subst h; subst hs
  induction n with
  | zero => rfl
  | succ n ih =>
    rw [iterR_succ, iterR_succ, ih (fun i hi t => hx i (by omega) t)]
    congr 1; funext t; exact hx n (by omega) t

/-- the loop-invariant rule -/
theorem iterR_inv (I : ℕ → σ) {n : ℕ} {s : σ} {F : ℕ → σ → Res σ} (h0 : s = I 0)
    (h : ∀ i, i < n → F i (I i) = ok (I (i+1))) : iterR n s F = ok (I n) := by
  subst h0
  induction n with
  | zero => rfl
  | succ n ih => rw [iterR_succ, ih (fun i hi => h i (by omega)), bind_ok, h n (by omega)]

/-- loop that pushes one element per iteration -/
@[gs] theorem iterR_push (n : ℕ) (l : List α) (g : ℕ → α) :
    iterR n l (fun i l => ok (push l (g i))) = ok (l ++ vec n g) := by
  apply iterR_inv (fun k => l ++ vec k g)
  · simp
  · intro i _; simp [push, vec_succ]
/-- the same, when the pushed element is known only for lists of the right length -/
theorem iterR_push' {n : ℕ} {l : List α} {F : ℕ → List α → Res (List α)} (g : ℕ → α)
    (h : ∀ i t, i < n → t.length = l.length + i → F i t = ok (t ++ [g i])) :
    iterR n l F = ok (l ++ vec n g) := by
  apply iterR_inv (fun k => l ++ vec k g)
  · simp
  · intro i hi; rw [h i _ hi (by simp)]; simp [vec_succ]
@[gs] theorem nil_append' (l : List α) : [] ++ l = l := rfl
/-- loop that accumulates a sum -/
@[gs] theorem iterR_sum {M : Type} [AddCommMonoid M] (n : ℕ) (s : M) (g : ℕ → M) :
    iterR n s (fun i s => ok (s + g i)) = ok (s + ∑ i ∈ Finset.range n, g i) := by
  apply iterR_inv (fun k => s + ∑ i ∈ Finset.range k, g i)
  · simp
  · intro i _; simp [Finset.sum_range_succ, add_assoc]
@[gs] theorem iterR_sum' {M : Type} [AddCommMonoid M] (n : ℕ) (s : M) (g : ℕ → M) :
    iterR n s (fun i s => ok (g i + s)) = ok (s + ∑ i ∈ Finset.range n, g i) := by
  rw [← iterR_sum]; congr 1; funext i s; rw [add_comm]
/-- loop that pushes onto the `i`-th row -/
theorem iterR_modify {n : ℕ} (x : ℕ → List α) (g : ℕ → α) :
    iterR n (vec n x) (fun i t => bind (idxR t i) fun r => setR t i (push r (g i)))
      = ok (vec n fun i => push (x i) (g i)) := by
  rw [iterR_inv (fun k => vec n fun i => if i < k then push (x i) (g i) else x i)]
  · congr 1; apply vec_congr rfl; intro i hi; simp [hi]
  · apply vec_congr rfl; simp
  · intro i hi
    simp only [idxR_vec, setR_vec, hi, if_true, bind_ok, lt_irrefl, if_false]
    congr 1; apply vec_congr rfl; intro j hj
    split_ifs <;> first | rfl | omega | (subst_vars; rfl)
/-- a loop that updates every element once -/
@[gs] theorem iterR_update {n : ℕ} (x : ℕ → α) (g : ℕ → α → α) :
    iterR n (vec n x) (fun i t => bind (idxR t i) fun r => setR t i (g i r)) = ok (vec n fun i => g i (x i)) := by
  rw [iterR_inv (fun k => vec n fun i => if i < k then g i (x i) else x i)]
  · congr 1; apply vec_congr rfl; intro i hi; simp [hi]
  · apply vec_congr rfl; simp
  · intro i hi
    simp only [idxR_vec, setR_vec, hi, if_true, bind_ok, lt_irrefl, if_false]
    congr 1; apply vec_congr rfl; intro j hj
    split_ifs <;> first | rfl | omega | (subst_vars; rfl)
/-- loops with two or four independent accumulators -/
@[gs] theorem iterR_push_push {β : Type} (n : ℕ) (l : List α) (l' : List β) (g : ℕ → α) (h : ℕ → β) :
    iterR n (l, l') (fun i t => ok (push t.1 (g i), push t.2 (h i))) = ok (l ++ vec n g, l' ++ vec n h) := by
  apply iterR_inv (fun k => (l ++ vec k g, l' ++ vec k h))
  · simp
  · intro i _; simp [push, vec_succ]
@[gs] theorem iterR_sum_sum {M N : Type} [AddCommMonoid M] [AddCommMonoid N] (n : ℕ) (s : M) (s' : N) (g : ℕ → M) (h : ℕ → N) :
    iterR n (s, s') (fun i t => ok (t.1 + g i, t.2 + h i)) = ok (s + ∑ i ∈ Finset.range n, g i, s' + ∑ i ∈ Finset.range n, h i) := by
  apply iterR_inv (fun k => (s + ∑ i ∈ Finset.range k, g i, s' + ∑ i ∈ Finset.range k, h i))
  · simp
  · intro i _; simp [Finset.sum_range_succ, add_assoc]
@[gs] theorem iterR_push_sum {N : Type} [AddCommMonoid N] (n : ℕ) (l : List α) (s' : N) (g : ℕ → α) (h : ℕ → N) :
    iterR n (l, s') (fun i t => ok (push t.1 (g i), t.2 + h i)) = ok (l ++ vec n g, s' + ∑ i ∈ Finset.range n, h i) := by
  apply iterR_inv (fun k => (l ++ vec k g, s' + ∑ i ∈ Finset.range k, h i))
  · simp
  · intro i _; simp [push, vec_succ, Finset.sum_range_succ, add_assoc]
@[gs] theorem iterR_sum_push {N : Type} [AddCommMonoid N] (n : ℕ) (l : List α) (s' : N) (g : ℕ → α) (h : ℕ → N) :
    iterR n (s', l) (fun i t => ok (t.1 + h i, push t.2 (g i))) = ok (s' + ∑ i ∈ Finset.range n, h i, l ++ vec n g) := by
  apply iterR_inv (fun k => (s' + ∑ i ∈ Finset.range k, h i, l ++ vec k g))
  · simp
  · intro i _; simp [push, vec_succ, Finset.sum_range_succ, add_assoc]
@[gs] theorem iterR_sum4 {M : Type} [AddCommMonoid M] (n : ℕ) (a b c d : M) (f g h k : ℕ → M) :
    iterR n (a, b, c, d) (fun i t => ok (t.1 + f i, t.2.1 + g i, t.2.2.1 + h i, t.2.2.2 + k i)) =
      ok (a + ∑ i ∈ Finset.range n, f i, b + ∑ i ∈ Finset.range n, g i, c + ∑ i ∈ Finset.range n, h i, d + ∑ i ∈ Finset.range n, k i) := by
  apply iterR_inv (fun m => (a + ∑ i ∈ Finset.range m, f i, b + ∑ i ∈ Finset.range m, g i, c + ∑ i ∈ Finset.range m, h i, d + ∑ i ∈ Finset.range m, k i))
  · simp
  · intro i _; simp [Finset.sum_range_succ, add_assoc]
/-! loops left early -/
@[gs] theorem elim_next {ρ τ : Type} (s : σ) (n b : σ → τ) (r : ρ → τ) : Ctl.elim (.next s) n b r = n s := rfl
@[gs] theorem elim_brk {ρ τ : Type} (s : σ) (n b : σ → τ) (r : ρ → τ) : Ctl.elim (.brk s) n b r = b s := rfl
@[gs] theorem elim_ret {ρ τ : Type} (x : ρ) (n b : σ → τ) (r : ρ → τ) : Ctl.elim (.ret x) n b r = r x := rfl
@[gs] theorem elim_ite {ρ τ : Type} (p : Prop) [Decidable p] (x y : Ctl σ ρ) (n b : σ → τ) (r : ρ → τ) :
    Ctl.elim (if p then x else y) n b r = if p then Ctl.elim x n b r else Ctl.elim y n b r := by split <;> rfl
theorem forC_map {ρ : Type} (f : β → α) (l : List β) (s : σ) (F : α → σ → Res (Ctl σ ρ)) :
    forC (l.map f) s F = forC l s fun b => F (f b) := by
  induction l generalizing s with
  | nil => rfl
  | cons b l ih =>
    simp only [List.map_cons, forC]
    congr 1; funext c; cases c <;> simp [ih]
theorem forC_stop {ρ : Type} (l : List α) (s : σ) (p : α → Prop) [DecidablePred p] (c : Ctl σ ρ) (hc : ∀ t, c ≠ .next t) :
    forC l s (fun a t => if p a then ok c else ok (.next t)) = ok (if ∀ a ∈ l, ¬ p a then .next s else c) := by
  induction l with
  | nil => simp [forC]
  | cons a l ih =>
    simp only [forC]
    by_cases h : p a
    · simp only [h, if_true, bind_ok]
      rw [if_neg (by simp [h])]
      all_goals (cases c with
        | next t => exact absurd rfl (hc t)
        | _ => rfl)
    · simp only [h, if_false, bind_ok, ih]
      simp [h]
@[gs] theorem forC_vec_ret {ρ : Type} (n : ℕ) (x : ℕ → α) (s : σ) (p : α → Prop) [DecidablePred p] (c : ρ) :
    forC (vec n x) s (fun a t => if p a then ok (.ret c) else ok (.next t)) =
      ok (if ∀ i, i < n → ¬ p (x i) then (.next s : Ctl σ ρ) else .ret c) := by
  rw [forC_stop _ _ _ _ (by simp)]; simp [vec]
@[gs] theorem forC_vec_brk {ρ : Type} (n : ℕ) (x : ℕ → α) (s : σ) (p : α → Prop) [DecidablePred p] (c : σ) :
    forC (vec n x) s (fun a t => if p a then ok (.brk c) else ok (.next t)) =
      ok (if ∀ i, i < n → ¬ p (x i) then (.next s : Ctl σ ρ) else .brk c) := by
  rw [forC_stop _ _ _ _ (by simp)]; simp [vec]
@[gs] theorem forC_vec_ret' {ρ : Type} (n : ℕ) (x : ℕ → α) (s : σ) (p : α → Prop) [DecidablePred p] (c : ρ) :
    forC (vec n x) s (fun a t => if p a then ok (.next t) else ok (.ret c)) =
      ok (if ∀ i, i < n → p (x i) then (.next s : Ctl σ ρ) else .ret c) := by
  have := forC_vec_ret n x s (fun a => ¬ p a) c
  simp only [ite_not, not_not] at this; exact this
@[gs] theorem forC_vec_brk' {ρ : Type} (n : ℕ) (x : ℕ → α) (s : σ) (p : α → Prop) [DecidablePred p] (c : σ) :
    forC (vec n x) s (fun a t => if p a then ok (.next t) else ok (.brk c)) =
      ok (if ∀ i, i < n → p (x i) then (.next s : Ctl σ ρ) else .brk c) := by
  have := forC_vec_brk (ρ := ρ) n x s (fun a => ¬ p a) c
  simp only [ite_not, not_not] at this; exact this
theorem iterR_panic {n : ℕ} {s : σ} {F : ℕ → σ → Res σ} (hn : 0 < n) (h : F 0 s = panic) : iterR n s F = panic := by
  induction n with
  | zero => omega
  | succ n ih =>
    rw [iterR_succ]
    by_cases hn : 0 < n
    · rw [ih hn]; rfl
    · have : n = 0 := by omega
      subst this; rw [iterR_zero, bind_ok, h]

/-! ### Other list functions on canonical lists -/
@[gs] theorem clone_id (l : List α) : id l = l := rfl
@[gs] theorem zip_vec (m n : ℕ) (x : ℕ → α) (y : ℕ → β) :
    (vec m x).zip (vec n y) = vec (min m n) (fun i => (x i, y i)) := by
  apply List.ext_getElem?; intro i
  simp only [List.zip, List.getElem?_zipWith, getElem?_vec]
  split_ifs <;> first | rfl | omega
@[gs] theorem take_vec (m n : ℕ) (x : ℕ → α) : (vec m x).take n = vec (min n m) x := by
  apply List.ext_getElem?; intro i
  simp only [List.getElem?_take, getElem?_vec]
  split_ifs <;> first | rfl | omega
@[gs] theorem drop_vec (m n : ℕ) (x : ℕ → α) : (vec m x).drop n = vec (m - n) (fun i => x (n + i)) := by
  apply List.ext_getElem?; intro i
  simp only [List.getElem?_drop, getElem?_vec]
  split_ifs <;> first | rfl | omega
@[gs] theorem chunksR_vec (m n : ℕ) (x : ℕ → α) : chunksR (vec m x) n =
    if n = 0 then panic else ok (vec ((m + n - 1) / n) fun i => vec (min n (m - i * n)) fun j => x (i * n + j)) := by
  simp only [chunksR, length_vec, take_vec, drop_vec]
theorem min_chunk {n m i : ℕ} (h : i < m / n) : min n (m - i * n) = n := by
  have h1 : n * (i + 1) ≤ n * (m / n) := Nat.mul_le_mul_left _ h
  have h2 : n * (m / n) ≤ m := Nat.mul_div_le m n
  have h3 : n * (i + 1) = i * n + n := by rw [Nat.mul_succ, Nat.mul_comm]
  omega
@[gs] theorem chunksExactR_vec (m n : ℕ) (x : ℕ → α) : chunksExactR (vec m x) n =
    if n = 0 then panic else ok (vec (m / n) fun i => vec n fun j => x (i * n + j)) := by
  simp only [chunksExactR, length_vec, take_vec, drop_vec]
  split_ifs; · rfl
  congr 1; apply vec_congr rfl; intro i hi; rw [min_chunk hi]
@[gs] theorem windowsR_vec (m n : ℕ) (x : ℕ → α) : windowsR (vec m x) n =
    if n = 0 then panic else ok (vec (m + 1 - n) fun i => vec n fun j => x (i + j)) := by
  simp only [windowsR, length_vec, take_vec, drop_vec]
  split_ifs; · rfl
  congr 1; apply vec_congr rfl; intro i hi; rw [Nat.min_eq_left (by omega)]

@[gs] theorem reverse_vec (m : ℕ) (x : ℕ → α) : (vec m x).reverse = vec m (fun i => x (m - 1 - i)) := by
  apply List.ext_getElem?; intro i
  by_cases h : i < m
  · rw [List.getElem?_reverse (by simpa using h)]
    simp only [getElem?_vec, length_vec]
    split_ifs <;> first | rfl | omega
  · rw [List.getElem?_eq_none (by simpa using h), List.getElem?_eq_none (by simpa using h)]
def enum (l : List α) : List (ℕ × α) := (List.range l.length).zip l
@[gs] theorem enum_vec (m : ℕ) (x : ℕ → α) : enum (vec m x) = vec m (fun i => (i, x i)) := by
  have := zip_vec m m (fun i => i) x
  simp only [enum, length_vec, Nat.min_self] at *
  rw [← this]; simp [vec]
@[gs] theorem sum_vec {M : Type} [AddCommMonoid M] (m : ℕ) (x : ℕ → M) :
    (vec m x).sum = ∑ i ∈ Finset.range m, x i := by
  induction m with
  | zero => rfl
  | succ m ih => simp [vec_succ, Finset.sum_range_succ, ih]
@[gs] theorem headR_vec (n : ℕ) (x : ℕ → α) : headR (vec n x) = if 0 < n then ok (x 0) else panic := by
  cases n <;> simp [vec_succ', headR]
@[gs] theorem subR_eq (a b : ℕ) : subR a b = if b ≤ a then ok (a - b) else panic := rfl

theorem foldR_add {M : Type} [AddMonoid M] (s : M) (l : List M) :
    foldR (fun a b => ok (a + b)) s l = ok (s + l.sum) := by
  induction l generalizing s with
  | nil => simp [foldR]
  | cons a l ih => simp only [foldR, bind_ok, ih, List.sum_cons, add_assoc]
@[gs] theorem parReduceR_add {M : Type} [AddMonoid M] (l : List M) :
    parReduceR (fun a b : M => ok (a + b)) 0 l = ok l.sum := by
  unfold parReduceR
  rw [if_pos ⟨fun a b => a + b, fun _ _ => rfl, add_assoc, fun a => ⟨zero_add a, add_zero a⟩⟩, foldR_add, zero_add]
def msmR {F G : Type} [AddCommMonoid G] [SMul F G] (xs : List G) (ys : List F) : Except ℕ G :=
  if xs.length = ys.length then .ok ((xs.zip ys).map fun p => p.2 • p.1).sum else .error (min xs.length ys.length)
@[gs] theorem msmR_vec {F G : Type} [AddCommMonoid G] [SMul F G] (m n : ℕ) (x : ℕ → G) (y : ℕ → F) :
    msmR (vec m x) (vec n y) = if m = n then .ok (∑ i ∈ Finset.range m, y i • x i) else .error (min m n) := by
  by_cases h : m = n
  · subst h; simp [msmR, zip_vec, map_vec, sum_vec]
  · simp [msmR, h]
@[gs] theorem isOkB_ok (x : α) : isOkB (.ok x : Except ε α) = true := rfl
@[gs] theorem isOkB_error (x : ε) : isOkB (.error x : Except ε α) = false := rfl
@[gs] theorem push_nil (a : α) : push [] a = vec 1 (fun _ => a) := rfl
@[gs high] theorem allR_vec1 (f : α → Res Bool) (x : ℕ → α) : allR f (vec 1 x) = f (x 0) := by
  simp only [vec, List.range_succ, List.range_zero, List.nil_append, List.map_cons, List.map_nil, allR]
  rcases f (x 0) with (_ | _) | _ <;> rfl
@[gs high] theorem allR_vec2 (f : α → Res Bool) (x : ℕ → α) :
    allR f (vec 2 x) = bind (f (x 0)) fun b => if b then f (x 1) else ok false := by
  rw [vec_succ']; simp only [allR, allR_vec1, Nat.zero_add]
@[gs high] theorem allR_vec3 (f : α → Res Bool) (x : ℕ → α) :
    allR f (vec 3 x) = bind (f (x 0)) fun b => if b then (bind (f (x 1)) fun b => if b then f (x 2) else ok false) else ok false := by
  rw [vec_succ']; simp only [allR, allR_vec2, Nat.zero_add]
@[gs high] theorem allR_vec4 (f : α → Res Bool) (x : ℕ → α) :
    allR f (vec 4 x) = bind (f (x 0)) fun b => if b then (bind (f (x 1)) fun b => if b then
      (bind (f (x 2)) fun b => if b then f (x 3) else ok false) else ok false) else ok false := by
  rw [vec_succ']; simp only [allR, allR_vec3, Nat.zero_add]
@[gs high] theorem anyR_vec1 (f : α → Res Bool) (x : ℕ → α) : anyR f (vec 1 x) = f (x 0) := by
  simp only [vec, List.range_succ, List.range_zero, List.nil_append, List.map_cons, List.map_nil, anyR]
  rcases f (x 0) with (_ | _) | _ <;> rfl
@[gs high] theorem anyR_vec2 (f : α → Res Bool) (x : ℕ → α) :
    anyR f (vec 2 x) = bind (f (x 0)) fun b => if b then ok true else f (x 1) := by
  rw [vec_succ']; simp only [anyR, anyR_vec1, Nat.zero_add]
@[gs high] theorem anyR_vec3 (f : α → Res Bool) (x : ℕ → α) :
    anyR f (vec 3 x) = bind (f (x 0)) fun b => if b then ok true else (bind (f (x 1)) fun b => if b then ok true else f (x 2)) := by
  rw [vec_succ']; simp only [anyR, anyR_vec2, Nat.zero_add]
@[gs high] theorem anyR_vec4 (f : α → Res Bool) (x : ℕ → α) :
    anyR f (vec 4 x) = bind (f (x 0)) fun b => if b then ok true else (bind (f (x 1)) fun b => if b then ok true else
      (bind (f (x 2)) fun b => if b then ok true else f (x 3))) := by
  rw [vec_succ']; simp only [anyR, anyR_vec3, Nat.zero_add]
@[gs] theorem allR_vec (p : α → Bool) (n : ℕ) (x : ℕ → α) :
    allR (fun a => ok (p a)) (vec n x) = ok (decide (∀ i, i < n → p (x i) = true)) := by
  have h : ∀ l : List α, allR (fun a => ok (p a)) l = ok (decide (∀ a ∈ l, p a = true)) := by
    intro l
    induction l with
    | nil => simp [allR]
    | cons a l ih => simp only [allR, bind_ok, ih]; cases hp : p a <;> simp [hp]
  rw [h]; congr 1; simp [vec]
@[gs] theorem anyR_vec (p : α → Bool) (n : ℕ) (x : ℕ → α) :
    anyR (fun a => ok (p a)) (vec n x) = ok (decide (∃ i, i < n ∧ p (x i) = true)) := by
  have h : ∀ l : List α, anyR (fun a => ok (p a)) l = ok (decide (∃ a ∈ l, p a = true)) := by
    intro l
    induction l with
    | nil => simp [anyR]
    | cons a l ih => simp only [anyR, bind_ok, ih]; cases hp : p a <;> simp [hp]
  rw [h]; congr 1; simp [vec]
@[gs] theorem unzip_vec (n : ℕ) (x : ℕ → α × β) :
    List.unzip (vec n x) = (vec n fun i => (x i).1, vec n fun i => (x i).2) := by
  simp [vec, List.unzip_eq_map, Function.comp_def]
@[gs] theorem toArr_vec (m n : ℕ) (x : ℕ → α) :
    toArr n (vec m x) = if m = n then .ok (vec m x) else .error () := by
  simp [toArr]


/-! ### Canonical forms of the remaining list functions -/
attribute [gs] List.map_id' Nat.div_one Nat.mod_one Nat.add_sub_cancel List.flatten_nil List.reverse_nil List.take_nil List.drop_nil
@[gs] theorem sliceR_vec (m a b : ℕ) (x : ℕ → α) :
    sliceR (vec m x) a b = if a ≤ b ∧ b ≤ m then ok (vec (b - a) fun i => x (a + i)) else panic := by
  simp only [sliceR, length_vec, take_vec, drop_vec]
  split_ifs with h
  · rw [Nat.min_eq_left h.2]
  · rfl
@[gs] theorem splitOffR_vec (m i : ℕ) (x : ℕ → α) :
    splitOffR (vec m x) i = if i ≤ m then ok (vec i x, vec (m - i) fun j => x (i + j)) else panic := by
  simp only [splitOffR, length_vec, take_vec, drop_vec]
  split_ifs with h
  · rw [Nat.min_eq_left h]
  · rfl
@[gs] theorem drainR_vec (m a b : ℕ) (x : ℕ → α) :
    drainR (vec m x) a b = if a ≤ b ∧ b ≤ m then ok (vec (b - a) (fun i => x (a + i)), vec a x ++ vec (m - b) fun j => x (b + j)) else panic := by
  simp only [drainR, length_vec, take_vec, drop_vec]
  split_ifs with h
  · rw [Nat.min_eq_left h.2, Nat.min_eq_left (by omega)]
  · rfl
@[gs] theorem insertR_vec (m i : ℕ) (x : ℕ → α) (a : α) :
    insertR (vec m x) i a = if i ≤ m then ok (vec (m + 1) fun j => if j < i then x j else if j = i then a else x (j - 1)) else panic := by
  simp only [insertR, length_vec, take_vec, drop_vec]
  split_ifs with h
  · congr 1; apply List.ext_getElem?; intro j
    rw [Nat.min_eq_left h, getElem?_vec, List.getElem?_append, length_vec, getElem?_vec]
    by_cases h1 : j < i
    · rw [if_pos h1, if_pos h1, if_pos (by omega), if_pos h1]
    · rw [if_neg h1, if_neg h1]
      by_cases h2 : j = i
      · subst h2; simp; omega
      · have : j - i = (j - i - 1) + 1 := by omega
        rw [this, List.getElem?_cons_succ, getElem?_vec, if_neg h2]
        split_ifs <;> first | rfl | omega | (congr 2; omega)
  · rfl
@[gs] theorem tail_vec (n : ℕ) (x : ℕ → α) : (vec n x).tail = vec (n - 1) fun i => x (i + 1) := by
  rw [← List.drop_one, drop_vec]; apply vec_congr rfl; intro i _; rw [Nat.add_comm]
@[gs] theorem dropLast_vec (n : ℕ) (x : ℕ → α) : (vec n x).dropLast = vec (n - 1) x := by
  rw [List.dropLast_eq_take, take_vec, length_vec, Nat.min_eq_left (by omega)]
@[gs] theorem splitFirst_nil : splitFirst ([] : List α) = none := id rfl
@[gs] theorem splitFirst_vec (n : ℕ) (x : ℕ → α) :
    splitFirst (vec n x) = if 0 < n then some (x 0, vec (n - 1) fun i => x (i + 1)) else none := by
  cases n <;> simp [vec_succ', splitFirst]
@[gs] theorem splitLast_vec (n : ℕ) (x : ℕ → α) :
    splitLast (vec n x) = if 0 < n then some (x (n - 1), vec (n - 1) x) else none := by
  cases n <;> simp [splitLast, dropLast_vec, vec_succ]
@[gs] theorem eraseIdx_vec (n i : ℕ) (x : ℕ → α) :
    (vec n x).eraseIdx i = if i < n then vec (n - 1) (fun j => if j < i then x j else x (j + 1)) else vec n x := by
  apply List.ext_getElem?; intro j
  rw [List.getElem?_eraseIdx]
  split_ifs with h1 h2 h2 <;> simp only [getElem?_vec] <;> split_ifs <;> first | rfl | omega
@[gs] theorem copyR_vec (m n : ℕ) (x y : ℕ → α) : copyR (vec m x) (vec n y) = if m = n then ok (vec n y) else panic := by
  simp only [copyR, length_vec]
theorem lt_ceil {i m n : ℕ} (h : i < (m + n - 1) / n) : i * n < m := by
  rcases Nat.eq_zero_or_pos n with h0 | h0
  · subst h0; simp at h
  · have h1 := (Nat.le_div_iff_mul_le h0).1 h
    rw [Nat.succ_mul] at h1; omega
@[gs] theorem stepByR_vec (m n : ℕ) (x : ℕ → α) :
    stepByR (vec m x) n = if n = 0 then panic else ok (vec ((m + n - 1) / n) fun i => x (i * n)) := by
  simp only [stepByR, length_vec]
  split_ifs; · rfl
  congr 1
  have hv : (vec ((m + n - 1) / n) fun i => x (i * n)) = List.filterMap (fun i => some (x (i * n))) (List.range ((m + n - 1) / n)) := by
    rw [vec, ← List.filterMap_eq_map]; rfl
  rw [hv]
  apply List.filterMap_congr; intro i hi
  rw [List.mem_range] at hi
  simp only [getElem?_vec, if_pos (lt_ceil hi), Function.comp]
@[gs] theorem chunksR_nil (n : ℕ) : chunksR ([] : List α) n = if n = 0 then panic else ok [] := by
  simp only [chunksR]; split_ifs with h; · rfl
  rw [List.length_nil, Nat.zero_add, Nat.div_eq_of_lt (by omega)]; rfl
@[gs] theorem chunksExactR_nil (n : ℕ) : chunksExactR ([] : List α) n = if n = 0 then panic else ok [] := by
  simp only [chunksExactR]; split_ifs with h; · rfl
  rw [List.length_nil, Nat.zero_div]; rfl
@[gs high] theorem flatten_vec1 (x : ℕ → List α) : (vec 1 x).flatten = x 0 := by simp [vec]
@[gs high] theorem flatten_vec2 (x y : List α) : (vec 2 (sel2 x y)).flatten = x ++ y := by simp [vec, List.range_succ, sel2]
@[gs high] theorem flatten_vec_one (m : ℕ) (A : ℕ → ℕ → α) : (vec m fun i => vec 1 (A i)).flatten = vec m fun i => A i 0 := by
  induction m with
  | zero => rfl
  | succ m ih => rw [vec_succ, List.flatten_append, ih, vec_succ (n := m) (x := fun i => A i 0), List.flatten_cons, List.flatten_nil, List.append_nil]; rfl
@[gs] theorem flatten_vec (m n : ℕ) (A : ℕ → ℕ → α) : (vec m fun i => vec n (A i)).flatten = vec (m * n) fun k => A (k / n) (k % n) := by
  induction m with
  | zero => simp [vec]
  | succ m ih =>
    rw [vec_succ, List.flatten_append, ih, Nat.succ_mul, List.flatten_cons, List.flatten_nil, List.append_nil, vec_append]
    apply vec_congr rfl; intro k hk
    split_ifs with h
    · rfl
    · obtain ⟨j, rfl⟩ : ∃ j, k = m * n + j := ⟨k - m * n, by omega⟩
      have hj : j < n := by omega
      rw [Nat.add_sub_cancel_left, Nat.mul_comm, Nat.mul_add_div (by omega), Nat.div_eq_of_lt hj, Nat.mul_add_mod,
        Nat.mod_eq_of_lt hj, Nat.add_zero]
@[gs] theorem ceil_mul {k : ℕ} (n : ℕ) (h : 0 < k) : (k * n + k - 1) / k = n := by
  rw [Nat.add_sub_assoc (by omega), Nat.mul_add_div h, Nat.div_eq_of_lt (by omega), Nat.add_zero]
@[gs] theorem ceil_mul' {k : ℕ} (n : ℕ) (h : 0 < k) : (n * k + k - 1) / k = n := by rw [Nat.mul_comm, ceil_mul n h]
@[gs] theorem mul_div_l {k : ℕ} (n : ℕ) (h : 0 < k) : k * n / k = n := Nat.mul_div_cancel_left n h
@[gs] theorem mul_div_r {k : ℕ} (n : ℕ) (h : 0 < k) : n * k / k = n := Nat.mul_div_cancel n h
@[gs] theorem min_blk {i k n : ℕ} (h : i < n) : min k (k * n - i * k) = k := by
  have : (i + 1) * k ≤ n * k := Nat.mul_le_mul_right _ h
  rw [Nat.succ_mul] at this; rw [Nat.mul_comm k n]; omega
@[gs] theorem min_blk' {i k n : ℕ} (h : i < n) : min k (n * k - i * k) = k := by rw [Nat.mul_comm, min_blk h]
@[gs] theorem min_one_sub {i n : ℕ} (h : i < n) : min 1 (n - i) = 1 := by omega
@[gs] theorem div_blk {i j n : ℕ} (h : j < n) : (i * n + j) / n = i := by
  rw [Nat.mul_comm, Nat.mul_add_div (by omega), Nat.div_eq_of_lt h, Nat.add_zero]
@[gs] theorem div_blk' {i j n : ℕ} (h : j < n) : (n * i + j) / n = i := by rw [Nat.mul_comm, div_blk h]
@[gs] theorem mod_blk {i j n : ℕ} (h : j < n) : (i * n + j) % n = j := by
  rw [Nat.mul_comm, Nat.mul_add_mod, Nat.mod_eq_of_lt h]
@[gs] theorem mod_blk' {i j n : ℕ} (h : j < n) : (n * i + j) % n = j := by rw [Nat.mul_comm, mod_blk h]
@[gs] theorem add_sub_le {a i : ℕ} (h : a ≤ i) : a + (i - a) = i := by omega
@[gs] theorem rev_rev {i m : ℕ} (h : i < m) : m - 1 - (m - 1 - i) = i := by omega
/-- an update of every row, last row first -/
@[gs] theorem iterR_update_rev {n : ℕ} (x : ℕ → α) (g : ℕ → α → α) :
    iterR n (vec n x) (fun i t => bind (idxR t (n - 1 - i)) fun r => setR t (n - 1 - i) (g i r)) = ok (vec n fun i => g (n - 1 - i) (x i)) := by
  rw [iterR_inv (fun k => vec n fun i => if n - k ≤ i then g (n - 1 - i) (x i) else x i)]
  · congr 1; apply vec_congr rfl; intro i _; rw [if_pos (by omega)]
  · apply vec_congr rfl; intro i hi; rw [if_neg (by omega)]
  · intro k hk
    have h1 : n - 1 - k < n := by omega
    simp only [idxR_vec, setR_vec, h1, if_true, bind_ok]
    congr 1; apply vec_congr rfl; intro i hi
    by_cases h : i = n - 1 - k
    · subst h; rw [if_pos rfl, if_neg (by omega), if_pos (by omega), rev_rev hk]
    · rw [if_neg h]; split_ifs <;> first | rfl | omega
theorem iterR_rows_rev {n : ℕ} {x z : ℕ → α} {F : ℕ → List α → Res (List α)}
    (h : ∀ i (y : ℕ → α), i < n → y i = x i → F (n - 1 - i) (vec n y) = ok (vec n fun k => if k = i then z i else y k)) :
    iterR n (vec n x) F = ok (vec n z) := by
  rw [iterR_inv (fun c => vec n fun k => if n - c ≤ k then z k else x k)]
  · congr 1; apply vec_congr rfl; intro k hk; rw [if_pos (by omega)]
  · apply vec_congr rfl; intro k hk; rw [if_neg (by omega)]
  · intro i hi
    have h1 := h (n - 1 - i) (fun k => if n - i ≤ k then z k else x k) (by omega) (by rw [if_neg (by omega)])
    rw [rev_rev hi] at h1
    rw [h1]
    congr 1; apply vec_congr rfl; intro k hk
    by_cases h : k = n - 1 - i
    · subst h; rw [if_pos rfl, if_pos (by omega)]
    · rw [if_neg h]; split_ifs <;> first | rfl | omega
theorem bind_rows_rev {n : ℕ} {x : ℕ → α} {F : ℕ → List α → Res (List α)} {k : List α → Res β} {r : Res β} (z : ℕ → α)
    (h : ∀ i (y : ℕ → α), i < n → y i = x i → F (n - 1 - i) (vec n y) = ok (vec n fun k => if k = i then z i else y k))
    (hk : k (vec n z) = r) : bind (iterR n (vec n x) F) k = r := by rw [iterR_rows_rev h, bind_ok, hk]

/-- a loop that cannot fail and whose result is not used -/
@[gs] theorem iterR_ignored {σ : Type} (n : ℕ) (s : σ) (g : ℕ → σ → σ) (k : Res β) : bind (iterR n s fun i x => ok (g i x)) (fun _ => k) = k := by
  obtain ⟨y, hy⟩ : ∃ y, iterR n s (fun i x => ok (g i x)) = ok y := by
    induction n with
    | zero => exact ⟨s, rfl⟩
    | succ n ih => obtain ⟨y, hy⟩ := ih; exact ⟨g n y, by rw [iterR_succ, hy, bind_ok]⟩
  rw [hy, bind_ok]
/-- `reduce` of a sequential iterator -/
def reduceR (f : α → α → Res α) : List α → Res (Option α)
  | [] => ok none
  | a :: l => bind (foldR f a l) fun r => ok (some r)
@[gs] theorem reduceR_add {M : Type} [AddCommMonoid M] (n : ℕ) (x : ℕ → M) :
    reduceR (fun a b : M => ok (a + b)) (vec n x) = ok (if 0 < n then some (∑ i ∈ Finset.range n, x i) else none) := by
  cases n with
  | zero => rfl
  | succ n => rw [vec_succ', reduceR, foldR_add, bind_ok, sum_vec, if_pos (by omega), Finset.sum_range_succ', add_comm]

end Gsv
