import Gsv.Env

/-! Models of `ark_serialize` for byte strings in memory: writing appends to a byte string and never
fails, reading consumes a prefix.  `Vec` is a little-endian `u64` length and the elements. -/

namespace Gsv
open Res
variable {α β γ : Type}

abbrev Wr (α : Type) := Res (Except SerErr α × Bytes)

def serPrim (enc : α → Bytes) (x : α) (w : Bytes) : Wr Unit := ok (.ok (), w ++ enc x)
def dePrim (dec : Bytes → Except SerErr α × Bytes) (r : Bytes) : Wr α := ok (dec r)
def chkPrim (_ : α) : Res (Except SerErr Unit) := ok (.ok ())

def encU8 (b : ℕ) : Bytes := [b]
def decU8 : Bytes → Except SerErr ℕ × Bytes
  | [] => (.error .IoError, [])
  | b :: r => (.ok b, r)
def encBool (b : Bool) : Bytes := [if b then 1 else 0]
def decBool : Bytes → Except SerErr Bool × Bytes
  | [] => (.error .IoError, [])
  | 0 :: r => (.ok false, r)
  | 1 :: r => (.ok true, r)
  | _ :: r => (.error .InvalidData, r)

def encLE : ℕ → ℕ → Bytes
  | 0, _ => []
  | k + 1, n => n % 256 :: encLE k (n / 256)
def decLE : Bytes → ℕ
  | [] => 0
  | b :: r => b + 256 * decLE r
def encU64 (n : ℕ) : Bytes := encLE 8 n
def decU64 (r : Bytes) : Except SerErr ℕ × Bytes :=
  if r.length < 8 then (.error .IoError, []) else (.ok (decLE (r.take 8)), r.drop 8)

/-- `read_exact` into `b`; after an error the buffer holds any `b.length` bytes (here: what it held) -/
def readExact (b r : Bytes) : Res ((Except SerErr Unit × Bytes) × Bytes) :=
  if r.length < b.length then ok ((.error .IoError, b), []) else ok ((.ok (), r.take b.length), r.drop b.length)

theorem encLE_length (k n : ℕ) : (encLE k n).length = k := by
  induction k generalizing n with
  | zero => rfl
  | succ k ih => simp [encLE, ih]
theorem decLE_encLE (k n : ℕ) (h : n < 256 ^ k) : decLE (encLE k n) = n := by
  induction k generalizing n with
  | zero => simp at h; simp [encLE, decLE, h]
  | succ k ih =>
    have : n / 256 < 256 ^ k := by
      apply Nat.div_lt_of_lt_mul; rw [pow_succ, mul_comm] at h; exact h
    simp only [encLE, decLE, ih _ this]
    omega
@[simp] theorem encU64_length (n : ℕ) : (encU64 n).length = 8 := encLE_length 8 n
theorem decU64_enc (n : ℕ) (h : n < 2 ^ 64) (r : Bytes) : decU64 (encU64 n ++ r) = (.ok n, r) := by
  have h8 : (encU64 n).length = 8 := encU64_length n
  have h' : n < 256 ^ 8 := by norm_num at h ⊢; exact h
  simp only [decU64, List.length_append, h8]
  rw [if_neg (by omega), List.take_left' h8, List.drop_left' h8]
  simp [encU64, decLE_encLE 8 n h']

/-- elements in order, stopping at the first error -/
def serSeq (f : α → Bytes → Wr Unit) : List α → Bytes → Wr Unit
  | [], w => ok (.ok (), w)
  | x :: l, w => bind (f x w) fun r =>
    match r.1 with
    | .ok _ => serSeq f l r.2
    | .error e => ok (.error e, r.2)
def serVec (f : α → Bytes → Wr Unit) (l : List α) (w : Bytes) : Wr Unit :=
  serSeq f l (w ++ encU64 l.length)

def deSeq (f : Bytes → Wr α) : ℕ → Bytes → Wr (List α)
  | 0, r => ok (.ok [], r)
  | n + 1, r => bind (f r) fun x =>
    match x.1 with
    | .error e => ok (.error e, x.2)
    | .ok a => bind (deSeq f n x.2) fun y =>
      match y.1 with
      | .error e => ok (.error e, y.2)
      | .ok l => ok (.ok (a :: l), y.2)
def deVec (f : Bytes → Wr α) (chk : List α → Res (Except SerErr Unit)) (v : Validate) (r : Bytes) : Wr (List α) :=
  match decU64 r with
  | (.error e, r) => ok (.error e, r)
  | (.ok n, r) => bind (deSeq f n r) fun x =>
    match x.1 with
    | .error e => ok (.error e, x.2)
    | .ok l =>
      match v with
      | .No => ok (.ok l, x.2)
      | .Yes => bind (chk l) fun c =>
        match c with
        | .ok _ => ok (.ok l, x.2)
        | .error e => ok (.error e, x.2)
def szVec (f : α → Res ℕ) (l : List α) : Res ℕ := bind (mapR f l) fun s => ok (8 + s.sum)
/-- the default `batch_check` -/
def chkEach (f : α → Res (Except SerErr Unit)) : List α → Res (Except SerErr Unit)
  | [] => ok (.ok ())
  | x :: l => bind (f x) fun r =>
    match r with
    | .ok _ => chkEach f l
    | .error e => ok (.error e)

def eqListR (f : α → α → Res Bool) : List α → List α → Res Bool
  | [], [] => ok true
  | a :: l, b :: m => bind (f a b) fun c => if c = true then eqListR f l m else ok false
  | _, _ => ok false
@[gs] theorem eqListR_decide [DecidableEq α] (l m : List α) :
    eqListR (fun a b => ok (decide (a = b))) l m = ok (decide (l = m)) := by
  induction l generalizing m with
  | nil => cases m <;> simp [eqListR]
  | cons a l ih =>
    cases m with
    | nil => simp [eqListR]
    | cons b m =>
      simp only [eqListR, bind_ok, ih, List.cons.injEq]
      by_cases h : a = b <;> simp [h]

def getOpt (l : List α) (i : ℕ) : Option α := l[i]?
@[gs] theorem getOpt_vec (n : ℕ) (x : ℕ → α) (i : ℕ) :
    getOpt (vec n x) i = if i < n then some (x i) else none := getElem?_vec n x i
def swapR (l : List α) (i j : ℕ) : Res (List α) :=
  bind (idxR l i) fun a => bind (idxR l j) fun b => bind (setR l i b) fun l => setR l j a
attribute [gs] swapR
def resize (l : List α) (n : ℕ) (a : α) : List α := l.take n ++ List.replicate (n - l.length) a
def optOk (o : Option α) (e : β) : Except β α := match o with | some a => .ok a | none => .error e
def optMapR (f : α → Res β) : Option α → Res (Option β)
  | some a => bind (f a) fun b => ok (some b)
  | none => ok none
def excMapR (f : α → Res β) : Except γ α → Res (Except γ β)
  | .ok a => bind (f a) fun b => ok (.ok b)
  | .error e => ok (.error e)
def excBindR (f : α → Res (Except γ β)) : Except γ α → Res (Except γ β)
  | .ok a => f a
  | .error e => ok (.error e)
def divR {E : Env} (a b : E.Fr) : Res E.Fr := if b = 0 then panic else ok (a * b⁻¹)
def collectExc : List (Except γ α) → Except γ (List α)
  | [] => .ok []
  | .ok a :: l => match collectExc l with | .ok r => .ok (a :: r) | .error e => .error e
  | .error e :: _ => .error e
def collectOpt : List (Option α) → Option (List α)
  | [] => some []
  | some a :: l => match collectOpt l with | some r => some (a :: r) | none => none
  | none :: _ => none

/-! ### Round trips -/

/-- `enc` describes what is written, what is read back, the announced size, and that the value is valid -/
structure RT (P : α → Prop) (enc : α → Bytes) (ser : α → Bytes → Wr Unit) (de : Bytes → Wr α) (sz : α → Res ℕ) : Prop where
  ser : ∀ x w, P x → ser x w = ok (.ok (), w ++ enc x)
  de : ∀ x r, P x → de (enc x ++ r) = ok (.ok x, r)
  sz : ∀ x, P x → sz x = ok (enc x).length

def encSeq (enc : α → Bytes) : List α → Bytes
  | [] => []
  | x :: l => enc x ++ encSeq enc l
def encVec (enc : α → Bytes) (l : List α) : Bytes := encU64 l.length ++ encSeq enc l

theorem serSeq_enc {P : α → Prop} {enc : α → Bytes} {f : α → Bytes → Wr Unit}
    (h : ∀ x w, P x → f x w = ok (.ok (), w ++ enc x)) (l : List α) (w : Bytes) (hl : ∀ x ∈ l, P x) :
    serSeq f l w = ok (.ok (), w ++ encSeq enc l) := by
  induction l generalizing w with
  | nil => simp [serSeq, encSeq]
  | cons x l ih =>
    simp only [serSeq, h x w (hl x (by simp)), bind_ok, encSeq]
    rw [ih _ (fun y hy => hl y (by simp [hy]))]; simp
theorem deSeq_enc {P : α → Prop} {enc : α → Bytes} {f : Bytes → Wr α}
    (h : ∀ x r, P x → f (enc x ++ r) = ok (.ok x, r)) (l : List α) (r : Bytes) (hl : ∀ x ∈ l, P x) :
    deSeq f l.length (encSeq enc l ++ r) = ok (.ok l, r) := by
  induction l with
  | nil => simp [deSeq, encSeq]
  | cons x l ih =>
    simp only [deSeq, List.length_cons, encSeq, List.append_assoc, h x _ (hl x (by simp)), bind_ok]
    rw [ih (fun y hy => hl y (by simp [hy]))]; simp
theorem szSeq_enc {P : α → Prop} {enc : α → Bytes} {f : α → Res ℕ} (h : ∀ x, P x → f x = ok (enc x).length) (l : List α)
    (hl : ∀ x ∈ l, P x) : ∃ s, mapR f l = ok s ∧ s.sum = (encSeq enc l).length := by
  induction l with
  | nil => exact ⟨[], rfl, rfl⟩
  | cons x l ih =>
    obtain ⟨s, hs, hs'⟩ := ih (fun y hy => hl y (by simp [hy]))
    refine ⟨(enc x).length :: s, ?_, ?_⟩
    · simp [mapR, h x (hl x (by simp)), hs]
    · simp [encSeq, hs']

/-- lists whose length fits a `u64`, all of whose elements satisfy `P` -/
structure Lst (P : α → Prop) (l : List α) : Prop where
  len : l.length < 2 ^ 64
  all : ∀ x ∈ l, P x

theorem RT.vec {P : α → Prop} {enc : α → Bytes} {ser de sz} (h : RT P enc ser de sz)
    {chk : List α → Res (Except SerErr Unit)} (hc : ∀ l, chk l = ok (.ok ())) (v : Validate) :
    RT (Lst P) (encVec enc) (serVec ser) (deVec de chk v) (szVec sz) where
  ser l w hl := by simp [serVec, serSeq_enc h.ser l _ hl.2, encVec]
  de l r hl := by
    simp only [deVec, encVec, List.append_assoc, decU64_enc _ hl.1, deSeq_enc h.de l r hl.2, bind_ok]
    cases v <;> simp [hc]
  sz l hl := by
    obtain ⟨s, hs, hs'⟩ := szSeq_enc h.sz l hl.2
    simp [szVec, hs, hs', encVec]

section
variable {E : Env} (c : Compress) (v : Validate)
theorem RT.fr : RT (fun _ => True) (E.encFr c) (serPrim (E.encFr c)) (dePrim (E.decFr c v)) (fun _ => ok (E.szFr c)) :=
  ⟨fun _ _ _ => rfl, fun x r _ => by simp [dePrim, E.decFr_enc], fun x _ => by simp [E.encFr_len]⟩
theorem RT.g1 : RT (fun _ => True) (E.enc1 c) (serPrim (E.enc1 c)) (dePrim (E.dec1 c v)) (fun _ => ok (E.sz1 c)) :=
  ⟨fun _ _ _ => rfl, fun x r _ => by simp [dePrim, E.dec1_enc], fun x _ => by simp [E.enc1_len]⟩
theorem RT.g2 : RT (fun _ => True) (E.enc2 c) (serPrim (E.enc2 c)) (dePrim (E.dec2 c v)) (fun _ => ok (E.sz2 c)) :=
  ⟨fun _ _ _ => rfl, fun x r _ => by simp [dePrim, E.dec2_enc], fun x _ => by simp [E.enc2_len]⟩
theorem RT.gt : RT (fun _ => True) (E.encT c) (serPrim (E.encT c)) (dePrim (E.decT c v)) (fun _ => ok (E.szT c)) :=
  ⟨fun _ _ _ => rfl, fun x r _ => by simp [dePrim, E.decT_enc], fun x _ => by simp [E.encT_len]⟩
end

/-- encodings of the lists and matrices that occur as fields -/
abbrev okP (_ : α) : Prop := True
abbrev Vld (chk : α → Res (Except SerErr Unit)) : Prop := ∀ x, chk x = ok (.ok ())
end Gsv
