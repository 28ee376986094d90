import Gsv.WI

/-! Vocabulary of the property theorems and lemmas used to derive them from the contracts. -/
set_option linter.all false
namespace Gsv
open Finset Res
variable {E : Env} {α : Type}

instance : Inhabited E.G1 := ⟨0⟩
instance : Inhabited E.G2 := ⟨0⟩
instance : Inhabited E.GT := ⟨0⟩
instance : Inhabited E.Fr := ⟨0⟩

/-- `C` is a commitment to the group elements `x` under the key `u`, holding its randomness -/
def WfG1 (u : ℕ → Com1 E) (m : ℕ) (x : ℕ → E.G1) (C : Commit1 E) : Prop :=
  ∃ R : ℕ → ℕ → E.Fr, C = ⟨vec m fun i => io1 (x i) + ∑ k ∈ range 2, R i k • u k, mat m 2 R⟩
def WfG2 (u : ℕ → Com2 E) (m : ℕ) (x : ℕ → E.G2) (C : Commit2 E) : Prop :=
  ∃ R : ℕ → ℕ → E.Fr, C = ⟨vec m fun i => io2 (x i) + ∑ k ∈ range 2, R i k • u k, mat m 2 R⟩
def WfS1 (u : ℕ → Com1 E) (g : E.G1) (m : ℕ) (x : ℕ → E.Fr) (C : Commit1 E) : Prop :=
  ∃ R : ℕ → ℕ → E.Fr, C = ⟨vec m fun i => x i • W1 u g + ∑ k ∈ range 1, R i k • u k, mat m 1 R⟩
def WfS2 (u : ℕ → Com2 E) (g : E.G2) (m : ℕ) (x : ℕ → E.Fr) (C : Commit2 E) : Prop :=
  ∃ R : ℕ → ℕ → E.Fr, C = ⟨vec m fun i => x i • W2 u g + ∑ k ∈ range 1, R i k • u k, mat m 1 R⟩

/-- two runs of the prover show the verifier the same thing -/
def SameTr (r r' : Res (CProof E × E.Rng)) : Prop :=
  ∃ P s P' s', r = ok (P, s) ∧ r' = ok (P', s') ∧ P.xcoms.coms = P'.xcoms.coms ∧ P.ycoms.coms = P'.ycoms.coms ∧
    P.equ_proofs.map (fun f => (f.pi, f.theta, f.equ_type)) = P'.equ_proofs.map (fun f => (f.pi, f.theta, f.equ_type))

/-- the row by row use of the random source -/
def frMat (w : ℕ) (s : E.Rng) (i k : ℕ) : E.Fr := Env.frAt s (w * i + k)

theorem comG1_form (m : ℕ) (x : ℕ → E.G1) (s : E.Rng) (u : ℕ → Com1 E) :
    ((⟨vec m fun i => io1 (x i) + (Env.frAt s (2 * i) • u 0 + Env.frAt s (2 * i + 1) • u 1), mat m 2 fun i j => Env.frAt s (2 * i + j)⟩, Env.adv s (2 * m)) : Commit1 E × E.Rng)
      = (⟨vec m (comX 2 u (fun i => io1 (x i)) (frMat 2 s)), mat m 2 (frMat 2 s)⟩, Env.adv s (2 * m)) := by
  have h : (vec m fun i => io1 (x i) + (Env.frAt s (2 * i) • u 0 + Env.frAt s (2 * i + 1) • u 1)) = vec m (comX 2 u (fun i => io1 (x i)) (frMat 2 s)) := vec_congr rfl fun i _ => by
    simp [comX, frMat, sum_range_succ]
  rw [h]; rfl
theorem comG2_form (m : ℕ) (x : ℕ → E.G2) (s : E.Rng) (u : ℕ → Com2 E) :
    ((⟨vec m fun i => io2 (x i) + (Env.frAt s (2 * i) • u 0 + Env.frAt s (2 * i + 1) • u 1), mat m 2 fun i j => Env.frAt s (2 * i + j)⟩, Env.adv s (2 * m)) : Commit2 E × E.Rng)
      = (⟨vec m (comY 2 u (fun i => io2 (x i)) (frMat 2 s)), mat m 2 (frMat 2 s)⟩, Env.adv s (2 * m)) := by
  have h : (vec m fun i => io2 (x i) + (Env.frAt s (2 * i) • u 0 + Env.frAt s (2 * i + 1) • u 1)) = vec m (comY 2 u (fun i => io2 (x i)) (frMat 2 s)) := vec_congr rfl fun i _ => by
    simp [comY, frMat, sum_range_succ]
  rw [h]; rfl
theorem comS1_form (m : ℕ) (x : ℕ → E.Fr) (s : E.Rng) (u : ℕ → Com1 E) (W : Com1 E) :
    ((⟨vec m fun i => x i • W + Env.frAt s i • u 0, mat m 1 fun i _ => Env.frAt s i⟩, Env.adv s m) : Commit1 E × E.Rng)
      = (⟨vec m (comX 1 u (fun i => x i • W) (frMat 1 s)), mat m 1 (frMat 1 s)⟩, Env.adv s (1 * m)) := by
  have : (mat m 1 fun i _ => Env.frAt s i) = mat m 1 (frMat 1 s) := vec_congr rfl fun i _ => vec_congr rfl fun k hk => by
    obtain rfl : k = 0 := by omega
    simp [frMat]
  rw [this]
  have h : (vec m fun i => x i • W + Env.frAt s i • u 0) = vec m (comX 1 u (fun i => x i • W) (frMat 1 s)) := vec_congr rfl fun i _ => by
    simp [comX, frMat, sum_range_succ]
  rw [h, one_mul]
theorem comS2_form (m : ℕ) (x : ℕ → E.Fr) (s : E.Rng) (u : ℕ → Com2 E) (W : Com2 E) :
    ((⟨vec m fun i => x i • W + Env.frAt s i • u 0, mat m 1 fun i _ => Env.frAt s i⟩, Env.adv s m) : Commit2 E × E.Rng)
      = (⟨vec m (comY 1 u (fun i => x i • W) (frMat 1 s)), mat m 1 (frMat 1 s)⟩, Env.adv s (1 * m)) := by
  have : (mat m 1 fun i _ => Env.frAt s i) = mat m 1 (frMat 1 s) := vec_congr rfl fun i _ => vec_congr rfl fun k hk => by
    obtain rfl : k = 0 := by omega
    simp [frMat]
  rw [this]
  have h : (vec m fun i => x i • W + Env.frAt s i • u 0) = vec m (comY 1 u (fun i => x i • W) (frMat 1 s)) := vec_congr rfl fun i _ => by
    simp [comY, frMat, sum_range_succ]
  rw [h, one_mul]

theorem vec_getD (n : ℕ) (x : ℕ → α) (i : ℕ) (d : α) : (vec n x).getD i d = if i < n then x i else d := by
  rw [List.getD_eq_getElem?_getD, getElem?_vec]; split <;> rfl

section congr
variable {m n : ℕ} {Γ : ℕ → ℕ → E.Fr}
theorem SatPPE_congr {a : ℕ → E.G1} {b : ℕ → E.G2} {t : E.GT} {x x' : ℕ → E.G1} {y y' : ℕ → E.G2}
    (hx : ∀ i, i < m → x' i = x i) (hy : ∀ j, j < n → y' j = y j) (h : SatPPE m n a b Γ t x y) : SatPPE m n a b Γ t x' y' := by
  unfold SatPPE at *
  rw [← h]
  congr 1
  · congr 1
    · exact sum_congr rfl fun j hj => by rw [hy j (by simpa using hj)]
    · exact sum_congr rfl fun i hi => by rw [hx i (by simpa using hi)]
  · exact sum_congr rfl fun i hi => sum_congr rfl fun j hj => by rw [hx i (by simpa using hi), hy j (by simpa using hj)]
theorem SatMSMEG1_congr {a : ℕ → E.G1} {b : ℕ → E.Fr} {t : E.G1} {x x' : ℕ → E.G1} {y y' : ℕ → E.Fr}
    (hx : ∀ i, i < m → x' i = x i) (hy : ∀ j, j < n → y' j = y j) (h : SatMSMEG1 m n a b Γ t x y) : SatMSMEG1 m n a b Γ t x' y' := by
  unfold SatMSMEG1 at *
  rw [← h]
  congr 1
  · congr 1
    · exact sum_congr rfl fun j hj => by rw [hy j (by simpa using hj)]
    · exact sum_congr rfl fun i hi => by rw [hx i (by simpa using hi)]
  · exact sum_congr rfl fun i hi => sum_congr rfl fun j hj => by rw [hx i (by simpa using hi), hy j (by simpa using hj)]
theorem SatMSMEG2_congr {a : ℕ → E.Fr} {b : ℕ → E.G2} {t : E.G2} {x x' : ℕ → E.Fr} {y y' : ℕ → E.G2}
    (hx : ∀ i, i < m → x' i = x i) (hy : ∀ j, j < n → y' j = y j) (h : SatMSMEG2 m n a b Γ t x y) : SatMSMEG2 m n a b Γ t x' y' := by
  unfold SatMSMEG2 at *
  rw [← h]
  congr 1
  · congr 1
    · exact sum_congr rfl fun j hj => by rw [hy j (by simpa using hj)]
    · exact sum_congr rfl fun i hi => by rw [hx i (by simpa using hi)]
  · exact sum_congr rfl fun i hi => sum_congr rfl fun j hj => by rw [hx i (by simpa using hi), hy j (by simpa using hj)]
theorem SatQuadEqu_congr {a b : ℕ → E.Fr} {t : E.Fr} {x x' y y' : ℕ → E.Fr}
    (hx : ∀ i, i < m → x' i = x i) (hy : ∀ j, j < n → y' j = y j) (h : SatQuadEqu m n a b Γ t x y) : SatQuadEqu m n a b Γ t x' y' := by
  unfold SatQuadEqu at *
  rw [← h]
  congr 1
  · congr 1
    · exact sum_congr rfl fun j hj => by rw [hy j (by simpa using hj)]
    · exact sum_congr rfl fun i hi => by rw [hx i (by simpa using hi)]
  · exact sum_congr rfl fun i hi => sum_congr rfl fun j hj => by rw [hx i (by simpa using hi), hy j (by simpa using hj)]
end congr

theorem Places.surj {q p : ℕ} {σ : ℕ → ℕ → ℕ} (h : Places q p σ) (c : ℕ) (hc : c < q * p) : ∃ l k, l < q ∧ k < p ∧ σ l k = c := by
  have hi : Set.InjOn (fun x : ℕ × ℕ => σ x.1 x.2) (range q ×ˢ range p : Finset (ℕ × ℕ)) := by
    rintro ⟨l, k⟩ h1 ⟨l', k'⟩ h2 e
    simp only [coe_product, Set.mem_prod, mem_coe, mem_range] at h1 h2
    obtain ⟨rfl, rfl⟩ := h.2 l k l' k' h1.1 h1.2 h2.1 h2.2 e
    rfl
  have hs : (range q ×ˢ range p).image (fun x : ℕ × ℕ => σ x.1 x.2) = range (q * p) := by
    apply eq_of_subset_of_card_le
    · intro c hc
      obtain ⟨⟨l, k⟩, hx, rfl⟩ := mem_image.mp hc
      simp only [mem_product, mem_range] at hx
      exact mem_range.mpr (h.1 l k hx.1 hx.2)
    · rw [card_image_of_injOn hi]; simp
  have := hs ▸ mem_range.mpr hc
  obtain ⟨⟨l, k⟩, hx, e⟩ := mem_image.mp this
  simp only [mem_product, mem_range] at hx
  exact ⟨l, k, hx.1, hx.2, e⟩

theorem row_lt {w m i k : ℕ} (hi : i < m) (hk : k < w) : w * i + k < w * m := by
  calc w * i + k < w * i + w := by omega
    _ = w * (i + 1) := by ring
    _ ≤ w * m := Nat.mul_le_mul_left _ hi

/-- witness indistinguishability in terms of the draws from the random source -/
theorem wi_lift {p q m n : ℕ} (hp : 0 < p) (hq : 0 < q) {A : ℕ → Com1 E} {B : ℕ → Com2 E} {Γ : ℕ → ℕ → E.Fr} {τ : ComT E} {u : ℕ → Com1 E} {v : ℕ → Com2 E}
    {X X' : ℕ → Com1 E} {Y Y' : ℕ → Com2 E} {ca cb cx cy cx' cy' : ℕ → ℕ → E.Fr}
    (iu : Indep1 p u) (iv : Indep2 q v) (iT : IndepT p q u v)
    (hA : A = sp1 p u ca) (hB : B = sp2 q v cb) (hX : X = sp1 p u cx) (hX' : X' = sp1 p u cx') (hY : Y = sp2 q v cy) (hY' : Y' = sp2 q v cy')
    (h : GSat m n A B Γ τ X Y) (h' : GSat m n A B Γ τ X' Y') {σ : ℕ → ℕ → ℕ} (hσ : Places q p σ) (R S T : ℕ → ℕ → E.Fr) :
    ∃ ρ : ℕ → E.Fr, ∀ s' : E.Rng,
      ((∀ i, i < m → comX p u X R i = comX p u X' (frMat p s') i) ∧
       (∀ j, j < n → comY q v Y S j = comY q v Y' (frMat q (Env.adv s' (p * m))) j) ∧
       (∀ k, k < p → prfπ q m n B Γ v Y R S T k = prfπ q m n B Γ v Y' (frMat p s') (frMat q (Env.adv s' (p * m))) (fun l k => Env.frAt (Env.adv (Env.adv s' (p * m)) (q * n)) (σ l k)) k) ∧
       (∀ l, l < q → prfθ p m n A Γ u X S T l = prfθ p m n A Γ u X' (frMat q (Env.adv s' (p * m))) (fun l k => Env.frAt (Env.adv (Env.adv s' (p * m)) (q * n)) (σ l k)) l))
      ↔ ∀ k, k < p * m + q * n + q * p → Env.frAt s' k = ρ k := by
  classical
  obtain ⟨R', S', T', H⟩ := wi_core iu iv iT hA hB hX hX' hY hY' h h' R S T
  have inv : ∀ c, ∃ lk : ℕ × ℕ, c < q * p → lk.1 < q ∧ lk.2 < p ∧ σ lk.1 lk.2 = c := fun c => by
    by_cases hc : c < q * p
    · obtain ⟨l, k, h⟩ := hσ.surj c hc
      exact ⟨(l, k), fun _ => h⟩
    · exact ⟨(0, 0), fun h => absurd h hc⟩
  choose ι hι using inv
  refine ⟨fun k => if k < p * m then R' (k / p) (k % p) else if k < p * m + q * n then S' ((k - p * m) / q) ((k - p * m) % q)
    else T' (ι (k - p * m - q * n)).1 (ι (k - p * m - q * n)).2, fun s' => ?_⟩
  have H' := H (frMat p s') (frMat q (Env.adv s' (p * m))) (fun l k => Env.frAt (Env.adv (Env.adv s' (p * m)) (q * n)) (σ l k))
  simp only [eq_comm (b := comX p u X' _ _), eq_comm (b := comY q v Y' _ _), eq_comm (b := prfπ q m n B Γ v Y' _ _ _ _), eq_comm (b := prfθ p m n A Γ u X' _ _ _)] at H' ⊢
  refine (Iff.trans (by constructor <;> exact fun h => by simpa only [eq_comm] using h) H').trans ?_
  simp only [frMat, Env.frAt_adv, Env.adv_adv]
  constructor
  · rintro ⟨h1, h2, h3⟩ k hk
    split
    · next hk1 =>
      have hm : k / p < m := by rw [Nat.div_lt_iff_lt_mul hp, Nat.mul_comm m p]; exact hk1
      rw [← h1 _ _ hm (Nat.mod_lt _ hp), Nat.div_add_mod]
    · next hk1 =>
      split
      · next hk2 =>
        have hn : (k - p * m) / q < n := by rw [Nat.div_lt_iff_lt_mul hq, Nat.mul_comm n q]; omega
        rw [← h2 _ _ hn (Nat.mod_lt _ hq), Nat.div_add_mod]
        congr 1; omega
      · next hk2 =>
        obtain ⟨a, b, c⟩ := hι (k - p * m - q * n) (by omega)
        rw [← h3 _ _ a b, c]
        congr 1; omega
  · intro hk
    refine ⟨fun i k hi hk' => ?_, fun j l hj hl => ?_, fun l k hl hk' => ?_⟩
    · have := row_lt hi hk'
      rw [hk _ (by omega), if_pos this]
      congr 1
      · rw [Nat.mul_add_div hp, Nat.div_eq_of_lt hk', add_zero]
      · rw [Nat.mul_add_mod, Nat.mod_eq_of_lt hk']
    · have := row_lt hj hl
      rw [hk _ (by omega), if_neg (by omega), if_pos (by omega), Nat.add_sub_cancel_left]
      congr 1
      · rw [Nat.mul_add_div hq, Nat.div_eq_of_lt hl, add_zero]
      · rw [Nat.mul_add_mod, Nat.mod_eq_of_lt hl]
    · have hc := hσ.1 l k hl hk'
      rw [hk _ (by omega), if_neg (by omega), if_neg (by omega)]
      have e : p * m + q * n + σ l k - p * m - q * n = σ l k := by omega
      rw [e]
      obtain ⟨a, b, c⟩ := hι (σ l k) hc
      obtain ⟨e1, e2⟩ := hσ.2 _ _ _ _ a b hl hk' c
      rw [e1, e2]

theorem cg1 {g : E.G1} (hg : g ≠ 0) (a t : E.Fr) (x : ℕ → E.G1) : ∃ c, (fun i => io1 (x i)) = sp1 2 (keyH1 g a t) c := by
  choose ξ hξ using fun i => E.gen1 g (x i) hg
  refine ⟨fun i => sel2 (ξ i * t) (-ξ i), funext fun i => ?_⟩
  rw [hξ i]; exact io1_hide (ξ i)
theorem cg2 {g : E.G2} (hg : g ≠ 0) (a t : E.Fr) (x : ℕ → E.G2) : ∃ c, (fun i => io2 (x i)) = sp2 2 (keyH2 g a t) c := by
  choose ξ hξ using fun i => E.gen2 g (x i) hg
  refine ⟨fun i => sel2 (ξ i * t) (-ξ i), funext fun i => ?_⟩
  rw [hξ i]; exact io2_hide (ξ i)
theorem cs1 (g : E.G1) (a t : E.Fr) (x : ℕ → E.Fr) : ∃ c, (fun i => x i • W1 (keyH1 g a t) g) = sp1 1 (keyH1 g a t) c := by
  refine ⟨fun i _ => x i * t, funext fun i => ?_⟩
  rw [W1_hide]; simp [sp1, smul_smul]
theorem cs2 (g : E.G2) (a t : E.Fr) (x : ℕ → E.Fr) : ∃ c, (fun i => x i • W2 (keyH2 g a t) g) = sp2 1 (keyH2 g a t) c := by
  refine ⟨fun i _ => x i * t, funext fun i => ?_⟩
  rw [W2_hide]; simp [sp2, smul_smul]
theorem sameTr_ok {m n p q : ℕ} {c c' θ θ' : ℕ → Com1 E} {d d' π π' : ℕ → Com2 E} {R S T R' S' T' : List (List E.Fr)} {ty : EquType} {s s' : E.Rng} :
    SameTr (ok (CProof.mk ⟨vec m c, R⟩ ⟨vec n d, S⟩ [EquProof.mk (vec p π) (vec q θ) ty T], s))
      (ok (CProof.mk ⟨vec m c', R'⟩ ⟨vec n d', S'⟩ [EquProof.mk (vec p π') (vec q θ') ty T'], s'))
    ↔ (∀ i, i < m → c i = c' i) ∧ (∀ j, j < n → d j = d' j) ∧ (∀ k, k < p → π k = π' k) ∧ (∀ l, l < q → θ l = θ' l) := by
  constructor
  · rintro ⟨P, s1, P', s2, e, e', h1, h2, h3⟩
    obtain ⟨rfl, rfl⟩ := Prod.mk.inj (Res.ok.inj e)
    obtain ⟨rfl, rfl⟩ := Prod.mk.inj (Res.ok.inj e')
    simp only [List.map_cons, List.map_nil, List.cons.injEq, Prod.mk.injEq, and_true] at h3
    exact ⟨vec_inj.mp h1, vec_inj.mp h2, vec_inj.mp h3.1, vec_inj.mp h3.2⟩
  · rintro ⟨h1, h2, h3, h4⟩
    refine ⟨_, _, _, _, rfl, rfl, vec_inj.mpr h1, vec_inj.mpr h2, ?_⟩
    simp only [List.map_cons, List.map_nil, vec_inj.mpr h3, vec_inj.mpr h4]

theorem vec1_G1 (x : E.G1) (s : E.Rng) (u : ℕ → Com1 E) :
    ((⟨vec 1 fun _ => io1 x + (Env.frAt s 0 • u 0 + Env.frAt s 1 • u 1), mat 1 2 fun _ j => Env.frAt s j⟩, Env.adv s 2) : Commit1 E × E.Rng)
      = (⟨vec 1 fun i => io1 x + (Env.frAt s (2 * i) • u 0 + Env.frAt s (2 * i + 1) • u 1), mat 1 2 fun i j => Env.frAt s (2 * i + j)⟩, Env.adv s (2 * 1)) := by
  refine congr (congrArg Prod.mk ?_) rfl
  congr 1
theorem vec1_S1 (x : E.Fr) (s : E.Rng) (u : ℕ → Com1 E) (W : Com1 E) :
    ((⟨vec 1 fun _ => x • W + Env.frAt s 0 • u 0, mat 1 1 fun _ _ => Env.frAt s 0⟩, Env.adv s 1) : Commit1 E × E.Rng)
      = (⟨vec 1 fun i => x • W + Env.frAt s i • u 0, mat 1 1 fun i _ => Env.frAt s i⟩, Env.adv s 1) := by
  refine congr (congrArg Prod.mk ?_) rfl
  congr 1
theorem vec1_G2 (x : E.G2) (s : E.Rng) (u : ℕ → Com2 E) :
    ((⟨vec 1 fun _ => io2 x + (Env.frAt s 0 • u 0 + Env.frAt s 1 • u 1), mat 1 2 fun _ j => Env.frAt s j⟩, Env.adv s 2) : Commit2 E × E.Rng)
      = (⟨vec 1 fun i => io2 x + (Env.frAt s (2 * i) • u 0 + Env.frAt s (2 * i + 1) • u 1), mat 1 2 fun i j => Env.frAt s (2 * i + j)⟩, Env.adv s (2 * 1)) := by
  refine congr (congrArg Prod.mk ?_) rfl
  congr 1
theorem vec1_S2 (x : E.Fr) (s : E.Rng) (u : ℕ → Com2 E) (W : Com2 E) :
    ((⟨vec 1 fun _ => x • W + Env.frAt s 0 • u 0, mat 1 1 fun _ _ => Env.frAt s 0⟩, Env.adv s 1) : Commit2 E × E.Rng)
      = (⟨vec 1 fun i => x • W + Env.frAt s i • u 0, mat 1 1 fun i _ => Env.frAt s i⟩, Env.adv s 1) := by
  refine congr (congrArg Prod.mk ?_) rfl
  congr 1
theorem pr_eq_zero {x : Com1 E} {y : Com2 E} : pr x y = 0 ↔ x = 0 ∨ y = 0 := by
  constructor
  · intro h
    have h0 := congrArg ComT.f0 h
    have h1 := congrArg ComT.f1 h
    have h2 := congrArg ComT.f2 h
    have h3 := congrArg ComT.f3 h
    have h0 := E.e_nondeg _ _ h0
    have h1 := E.e_nondeg _ _ h1
    have h2 := E.e_nondeg _ _ h2
    have h3 := E.e_nondeg _ _ h3
    by_cases ha : y = 0
    · exact Or.inr ha
    · left
      rw [Com2.ext_iff] at ha
      simp only [Com2.zero_f0, Com2.zero_f1, not_and_or] at ha
      rcases ha with ha | ha
      · exact Com1.ext (h0.resolve_right ha) (h2.resolve_right ha)
      · exact Com1.ext (h1.resolve_right ha) (h3.resolve_right ha)
  · rintro (rfl | rfl)
    · exact pr_zero_left y
    · exact pr_zero_right x
end Gsv
