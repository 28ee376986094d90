import Gsv.Theory

/-! Perfect witness indistinguishability under hiding keys. -/
set_option linter.all false
namespace Gsv
open Finset
variable {E : Env}

def Indep1 (p : ℕ) (u : ℕ → Com1 E) : Prop :=
  ∀ α β : ℕ → E.Fr, ∑ k ∈ range p, α k • u k = ∑ k ∈ range p, β k • u k → ∀ k, k < p → α k = β k
def Indep2 (q : ℕ) (v : ℕ → Com2 E) : Prop :=
  ∀ α β : ℕ → E.Fr, ∑ k ∈ range q, α k • v k = ∑ k ∈ range q, β k • v k → ∀ k, k < q → α k = β k
def IndepT (p q : ℕ) (u : ℕ → Com1 E) (v : ℕ → Com2 E) : Prop :=
  ∀ M N : ℕ → ℕ → E.Fr, ∑ k ∈ range p, ∑ l ∈ range q, M k l • pr (u k) (v l) = ∑ k ∈ range p, ∑ l ∈ range q, N k l • pr (u k) (v l) →
    ∀ k l, k < p → l < q → M k l = N k l

section coord
variable {p q m n : ℕ} {Γ : ℕ → ℕ → E.Fr} {u : ℕ → Com1 E} {v : ℕ → Com2 E} {ca cb cx cy R S T : ℕ → ℕ → E.Fr}
variable (m n p q Γ ca cb cx cy R S T) in
def cP (k l : ℕ) : E.Fr := (∑ i ∈ range m, R i k * (cb i l + ∑ j ∈ range n, Γ i j * (cy j l + S j l))) - T l k
variable (m n p q Γ ca cb cx cy R S T) in
def cΘ (k l : ℕ) : E.Fr := (∑ j ∈ range n, S j l * (ca j k + ∑ i ∈ range m, Γ i j * cx i k)) + T l k
variable (m n p q Γ ca cb cx cy R S T) in
def cM (k l : ℕ) : E.Fr := (∑ j ∈ range n, ca j k * cy j l) + (∑ i ∈ range m, cx i k * cb i l) + ∑ i ∈ range m, ∑ j ∈ range n, Γ i j * (cx i k * cy j l)
abbrev sp1 (p : ℕ) (u : ℕ → Com1 E) (c : ℕ → ℕ → E.Fr) (i : ℕ) : Com1 E := ∑ k ∈ range p, c i k • u k
abbrev sp2 (q : ℕ) (v : ℕ → Com2 E) (c : ℕ → ℕ → E.Fr) (i : ℕ) : Com2 E := ∑ k ∈ range q, c i k • v k

theorem coord_comX (i : ℕ) : comX p u (sp1 p u cx) R i = ∑ k ∈ range p, (cx i k + R i k) • u k := by
  simp [comX, add_smul, sum_add_distrib]
theorem coord_comY (j : ℕ) : comY q v (sp2 q v cy) S j = ∑ k ∈ range q, (cy j k + S j k) • v k := by
  simp [comY, add_smul, sum_add_distrib]
theorem coord_π (k : ℕ) : prfπ q m n (sp2 q v cb) Γ v (sp2 q v cy) R S T k = ∑ l ∈ range q, cP m n Γ cb cy R S T k l • v l := by
  unfold prfπ cP
  simp only [sp2]
  rw [lin_swap, lin_swap, ← sum_add_distrib, ← sum_add_distrib]
  refine sum_congr rfl fun l _ => ?_
  rw [← add_smul, ← add_smul]
  congr 1
  simp only [mul_add, sum_add_distrib, sum_mul, mul_sum, mul_assoc]
  rw [sum_comm, sum_comm (s := range n) (t := range m) (f := fun j i => R i k * (Γ i j * S j l))]
  ring
theorem coord_θ (l : ℕ) : prfθ p m n (sp1 p u ca) Γ u (sp1 p u cx) S T l = ∑ k ∈ range p, cΘ m n Γ ca cx S T k l • u k := by
  unfold prfθ cΘ
  simp only [sp1]
  rw [lin_swap1, lin_swap1, ← sum_add_distrib, ← sum_add_distrib]
  refine sum_congr rfl fun k _ => ?_
  rw [← add_smul, ← add_smul]
  congr 1
  simp only [mul_add, sum_add_distrib, sum_mul, mul_sum, mul_assoc]
  rw [sum_comm]
theorem coord_M : (∑ j ∈ range n, pr (sp1 p u ca j) (sp2 q v cy j)) + (∑ i ∈ range m, pr (sp1 p u cx i) (sp2 q v cb i))
      + ∑ i ∈ range m, pr (sp1 p u cx i) (∑ j ∈ range n, Γ i j • sp2 q v cy j)
    = ∑ k ∈ range p, ∑ l ∈ range q, cM m n Γ ca cb cx cy k l • pr (u k) (v l) := by
  have h (N : ℕ) (c : ℕ → ℕ → E.Fr) (d : ℕ → ℕ → E.Fr) : ∑ j ∈ range N, pr (sp1 p u c j) (sp2 q v d j)
      = ∑ k ∈ range p, ∑ l ∈ range q, (∑ j ∈ range N, c j k * d j l) • pr (u k) (v l) := by
    rw [bl2 (R := c) (B := sp2 q v d)]
    refine sum_congr rfl fun k _ => ?_
    rw [lin_swap, pr_sum_right]
    simp only [pr_smul_right]
  have e : ∀ i, ∑ j ∈ range n, Γ i j • sp2 q v cy j = sp2 q v (fun i l => ∑ j ∈ range n, Γ i j * cy j l) i := fun i => lin_swap
  simp only [e, h]
  simp only [← sum_add_distrib, ← add_smul]
  refine sum_congr rfl fun k _ => sum_congr rfl fun l _ => ?_
  congr 1
  unfold cM
  congr 1
  refine sum_congr rfl fun i _ => ?_
  rw [mul_sum]
  exact sum_congr rfl fun j _ => by ring
theorem coord_id (k l : ℕ) : cP m n Γ cb cy R S T k l + cΘ m n Γ ca cx S T k l + cM m n Γ ca cb cx cy k l
    = (∑ i ∈ range m, (cx i k + R i k) * (cb i l + ∑ j ∈ range n, Γ i j * (cy j l + S j l))) + ∑ j ∈ range n, (cy j l + S j l) * ca j k := by
  have e : ∑ j ∈ range n, S j l * ∑ i ∈ range m, Γ i j * cx i k = ∑ i ∈ range m, cx i k * ∑ j ∈ range n, Γ i j * S j l := by
    simp only [mul_sum]
    rw [sum_comm]
    exact sum_congr rfl fun i _ => sum_congr rfl fun j _ => by ring
  have e' : ∑ i ∈ range m, ∑ j ∈ range n, Γ i j * (cx i k * cy j l) = ∑ i ∈ range m, cx i k * ∑ j ∈ range n, Γ i j * cy j l := by
    simp only [mul_sum]
    exact sum_congr rfl fun i _ => sum_congr rfl fun j _ => by ring
  have e'' : ∑ j ∈ range n, ca j k * cy j l = ∑ j ∈ range n, cy j l * ca j k := sum_congr rfl fun j _ => by ring
  unfold cP cΘ cM
  simp only [add_mul, mul_add, sum_add_distrib, e, e', e'']
  ring
end coord

/-- every transcript arises from the other witness for exactly one choice of the randomness -/
theorem wi_core {p q m n : ℕ} {A : ℕ → Com1 E} {B : ℕ → Com2 E} {Γ : ℕ → ℕ → E.Fr} {τ : ComT E} {u : ℕ → Com1 E} {v : ℕ → Com2 E}
    {X X' : ℕ → Com1 E} {Y Y' : ℕ → Com2 E} {ca cb cx cy cx' cy' : ℕ → ℕ → E.Fr}
    (iu : Indep1 p u) (iv : Indep2 q v) (iT : IndepT p q u v)
    (hA : A = sp1 p u ca) (hB : B = sp2 q v cb) (hX : X = sp1 p u cx) (hX' : X' = sp1 p u cx') (hY : Y = sp2 q v cy) (hY' : Y' = sp2 q v cy')
    (h : GSat m n A B Γ τ X Y) (h' : GSat m n A B Γ τ X' Y') (R S T : ℕ → ℕ → E.Fr) :
    ∃ R' S' T' : ℕ → ℕ → E.Fr, ∀ R'' S'' T'' : ℕ → ℕ → E.Fr,
      ((∀ i, i < m → comX p u X' R'' i = comX p u X R i) ∧ (∀ j, j < n → comY q v Y' S'' j = comY q v Y S j) ∧
       (∀ k, k < p → prfπ q m n B Γ v Y' R'' S'' T'' k = prfπ q m n B Γ v Y R S T k) ∧
       (∀ l, l < q → prfθ p m n A Γ u X' S'' T'' l = prfθ p m n A Γ u X S T l))
      ↔ ((∀ i k, i < m → k < p → R'' i k = R' i k) ∧ (∀ j l, j < n → l < q → S'' j l = S' j l) ∧ (∀ l k, l < q → k < p → T'' l k = T' l k)) := by
  subst hA hB hX hX' hY hY'
  have hM : ∀ k l, k < p → l < q → cM m n Γ ca cb cx' cy' k l = cM m n Γ ca cb cx cy k l := by
    unfold GSat at h h'
    rw [coord_M] at h h'
    exact iT _ _ (h'.trans h.symm)
  refine ⟨fun i k => cx i k + R i k - cx' i k, fun j l => cy j l + S j l - cy' j l,
    fun l k => (∑ i ∈ range m, (cx i k + R i k - cx' i k) * (cb i l + ∑ j ∈ range n, Γ i j * (cy j l + S j l))) - cP m n Γ cb cy R S T k l, ?_⟩
  intro R'' S'' T''
  simp only [coord_comX, coord_comY, coord_π, coord_θ]
  -- the coefficients of the proof depend on the randomness in range only
  have hP : (∀ i k, i < m → k < p → R'' i k = cx i k + R i k - cx' i k) → (∀ j l, j < n → l < q → S'' j l = cy j l + S j l - cy' j l) →
      ∀ k l, k < p → l < q → cP m n Γ cb cy' R'' S'' T'' k l
        = (∑ i ∈ range m, (cx i k + R i k - cx' i k) * (cb i l + ∑ j ∈ range n, Γ i j * (cy j l + S j l))) - T'' l k := by
    intro hR hS k l hk hl
    unfold cP
    congr 1
    refine sum_congr rfl fun i hi => ?_
    rw [hR i k (by simpa using hi) hk]
    congr 2
    refine sum_congr rfl fun j hj => ?_
    rw [hS j l (by simpa using hj) hl]
    ring
  constructor
  · rintro ⟨h1, h2, h3, h4⟩
    have hR : ∀ i k, i < m → k < p → R'' i k = cx i k + R i k - cx' i k := by
      intro i k hi hk
      have := iu _ _ (h1 i hi) k hk
      linear_combination this
    have hS : ∀ j l, j < n → l < q → S'' j l = cy j l + S j l - cy' j l := by
      intro j l hj hl
      have := iv _ _ (h2 j hj) l hl
      linear_combination this
    refine ⟨hR, hS, fun l k hl hk => ?_⟩
    have := iv _ _ (h3 k hk) l hl
    rw [hP hR hS k l hk hl] at this
    linear_combination -this
  · rintro ⟨hR, hS, hT⟩
    have hcx : ∀ i k, i < m → k < p → cx' i k + R'' i k = cx i k + R i k := fun i k hi hk => by rw [hR i k hi hk]; ring
    have hcy : ∀ j l, j < n → l < q → cy' j l + S'' j l = cy j l + S j l := fun j l hj hl => by rw [hS j l hj hl]; ring
    have hπ : ∀ k l, k < p → l < q → cP m n Γ cb cy' R'' S'' T'' k l = cP m n Γ cb cy R S T k l := by
      intro k l hk hl
      rw [hP hR hS k l hk hl, hT l k hl hk]
      ring
    have hθ : ∀ k l, k < p → l < q → cΘ m n Γ ca cx' S'' T'' k l = cΘ m n Γ ca cx S T k l := by
      intro k l hk hl
      have e1 := coord_id (m := m) (n := n) (Γ := Γ) (ca := ca) (cb := cb) (cx := cx) (cy := cy) (R := R) (S := S) (T := T) k l
      have e2 := coord_id (m := m) (n := n) (Γ := Γ) (ca := ca) (cb := cb) (cx := cx') (cy := cy') (R := R'') (S := S'') (T := T'') k l
      rw [sum_congr (s₁ := range m) rfl (fun i hi => by
          rw [hcx i k (by simpa using hi) hk, sum_congr rfl (fun j hj => by rw [hcy j l (by simpa using hj) hl])]),
        sum_congr (s₁ := range n) rfl (fun j hj => by rw [hcy j l (by simpa using hj) hl]), hM k l hk hl, hπ k l hk hl] at e2
      linear_combination e2 - e1
    refine ⟨fun i hi => sum_congr rfl fun k hk => ?_, fun j hj => sum_congr rfl fun l hl => ?_, fun k hk => sum_congr rfl fun l hl => ?_,
      fun l hl => sum_congr rfl fun k hk => ?_⟩
    · rw [hcx i k hi (by simpa using hk)]
    · rw [hcy j l hj (by simpa using hl)]
    · rw [hπ k l hk (by simpa using hl)]
    · rw [hθ k l (by simpa using hk) hl]

/-! ### Hiding keys -/
def keyH1 (g : E.G1) (a t : E.Fr) : ℕ → Com1 E := sel2 ⟨g, a • g⟩ ⟨t • g, t • a • g - g⟩
def keyH2 (g : E.G2) (a t : E.Fr) : ℕ → Com2 E := sel2 ⟨g, a • g⟩ ⟨t • g, t • a • g - g⟩
/-- the hiding CRS made of generators and scalars -/
def hideCrs (p1 : E.G1) (p2 : E.G2) (a1 a2 t1 t2 : E.Fr) : CRS E :=
  ⟨vec 2 (keyH1 p1 a1 t1), vec 2 (keyH2 p2 a2 t2), p1, p2, E.e p1 p2⟩
section hide
variable {g : E.G1} {g' : E.G2} {a a' t t' : E.Fr}
theorem W1_hide : W1 (keyH1 g a t) g = sp1 1 (keyH1 g a t) (fun _ _ => t) 0 := by
  ext <;> simp [W1, keyH1, io1, sp1]
theorem W2_hide : W2 (keyH2 g' a t) g' = sp2 1 (keyH2 g' a t) (fun _ _ => t) 0 := by
  ext <;> simp [W2, keyH2, io2, sp2]
theorem io1_hide (ξ : E.Fr) : io1 (ξ • g) = sp1 2 (keyH1 g a t) (fun _ => sel2 (ξ * t) (-ξ)) 0 := by
  ext <;> simp [keyH1, io1, sp1, sum_range_succ, smul_smul, smul_sub, mul_assoc]
theorem io2_hide (ξ : E.Fr) : io2 (ξ • g') = sp2 2 (keyH2 g' a t) (fun _ => sel2 (ξ * t) (-ξ)) 0 := by
  ext <;> simp [keyH2, io2, sp2, sum_range_succ, smul_smul, smul_sub, mul_assoc]
theorem indep1_hide (hg : g ≠ 0) : Indep1 2 (keyH1 g a t) := by
  intro α β h
  have h0 := congrArg Com1.f0 h
  have h1 := congrArg Com1.f1 h
  simp only [sum_range_succ, sum_range_zero, zero_add, keyH1, sel2_zero, sel2_one, Com1.add_f0, Com1.add_f1, Com1.smul_f0, Com1.smul_f1,
    smul_sub, smul_smul] at h0 h1
  have k0 : (α 0 + α 1 * t - (β 0 + β 1 * t)) • g = 0 := by rw [sub_smul, add_smul, add_smul, h0, sub_self]
  have k1 : (α 0 * a + (α 1 * (t * a) - α 1) - (β 0 * a + (β 1 * (t * a) - β 1))) • g = 0 := by
    simp only [sub_smul, add_smul]; rw [h1, sub_self]
  have k0 := (smul_eq_zero.mp k0).resolve_right hg
  have k1 := (smul_eq_zero.mp k1).resolve_right hg
  have e1 : α 1 = β 1 := by linear_combination a * k0 - k1
  intro k hk
  obtain rfl | rfl : k = 0 ∨ k = 1 := by omega
  · linear_combination k0 - t * e1
  · exact e1
theorem indep2_hide (hg : g' ≠ 0) : Indep2 2 (keyH2 g' a t) := by
  intro α β h
  have h0 := congrArg Com2.f0 h
  have h1 := congrArg Com2.f1 h
  simp only [sum_range_succ, sum_range_zero, zero_add, keyH2, sel2_zero, sel2_one, Com2.add_f0, Com2.add_f1, Com2.smul_f0, Com2.smul_f1,
    smul_sub, smul_smul] at h0 h1
  have k0 : (α 0 + α 1 * t - (β 0 + β 1 * t)) • g' = 0 := by rw [sub_smul, add_smul, add_smul, h0, sub_self]
  have k1 : (α 0 * a + (α 1 * (t * a) - α 1) - (β 0 * a + (β 1 * (t * a) - β 1))) • g' = 0 := by
    simp only [sub_smul, add_smul]; rw [h1, sub_self]
  have k0 := (smul_eq_zero.mp k0).resolve_right hg
  have k1 := (smul_eq_zero.mp k1).resolve_right hg
  have e1 : α 1 = β 1 := by linear_combination a * k0 - k1
  intro k hk
  obtain rfl | rfl : k = 0 ∨ k = 1 := by omega
  · linear_combination k0 - t * e1
  · exact e1
theorem indepT_hide (hg : g ≠ 0) (hg' : g' ≠ 0) : IndepT 2 2 (keyH1 g a t) (keyH2 g' a' t') := by
  have h0 : E.e g g' ≠ 0 := fun h => (E.e_nondeg _ _ h).elim hg hg'
  intro M N h
  have c0 := congrArg ComT.f0 h
  have c1 := congrArg ComT.f1 h
  have c2 := congrArg ComT.f2 h
  have c3 := congrArg ComT.f3 h
  simp only [sum_range_succ, sum_range_zero, zero_add, keyH1, keyH2, sel2_zero, sel2_one, pr, ComT.add_f0, ComT.add_f1, ComT.add_f2, ComT.add_f3,
    ComT.smul_f0, ComT.smul_f1, ComT.smul_f2, ComT.smul_f3, Env.e_smul_left, Env.e_smul_right, Env.e_sub_left, Env.e_sub_right, smul_sub, smul_smul,
    ← sub_smul, ← add_smul] at c0 c1 c2 c3
  rw [← sub_eq_zero, ← sub_smul] at c0 c1 c2 c3
  have c0 := (smul_eq_zero.mp c0).resolve_right h0
  have c1 := (smul_eq_zero.mp c1).resolve_right h0
  have c2 := (smul_eq_zero.mp c2).resolve_right h0
  have c3 := (smul_eq_zero.mp c3).resolve_right h0
  have e11 : M 1 1 = N 1 1 := by linear_combination c3 - a * c1 - a' * c2 + a * a' * c0
  have e01 : M 0 1 = N 0 1 := by linear_combination a' * c0 - c1 - t * e11
  have e10 : M 1 0 = N 1 0 := by linear_combination a * c0 - c2 - t' * e11
  intro k l hk hl
  obtain rfl | rfl : k = 0 ∨ k = 1 := by omega
  all_goals obtain rfl | rfl : l = 0 ∨ l = 1 := by omega
  · linear_combination c0 - t' * e01 - t * e10 - t * t' * e11
  · exact e01
  · exact e10
  · exact e11
end hide
theorem sum_ext_zero {M : Type} [AddCommMonoid M] {p p' : ℕ} (hp : p ≤ p') (f : ℕ → M) :
    ∑ k ∈ range p', (if k < p then f k else 0) = ∑ k ∈ range p, f k := by
  rw [← sum_filter]
  exact sum_congr (by ext; simp; omega) fun _ _ => rfl
theorem Indep1.mono {p p' : ℕ} {u : ℕ → Com1 E} (h : Indep1 p' u) (hp : p ≤ p') : Indep1 p u := by
  intro α β e k hk
  have := h (fun k => if k < p then α k else 0) (fun k => if k < p then β k else 0) (by
    simp only [ite_smul, zero_smul]; rw [sum_ext_zero hp (fun k => α k • u k), sum_ext_zero hp (fun k => β k • u k), e]) k (by omega)
  simpa [hk] using this
theorem Indep2.mono {p p' : ℕ} {u : ℕ → Com2 E} (h : Indep2 p' u) (hp : p ≤ p') : Indep2 p u := by
  intro α β e k hk
  have := h (fun k => if k < p then α k else 0) (fun k => if k < p then β k else 0) (by
    simp only [ite_smul, zero_smul]; rw [sum_ext_zero hp (fun k => α k • u k), sum_ext_zero hp (fun k => β k • u k), e]) k (by omega)
  simpa [hk] using this
theorem IndepT.mono {p p' q q' : ℕ} {u : ℕ → Com1 E} {v : ℕ → Com2 E} (h : IndepT p' q' u v) (hp : p ≤ p') (hq : q ≤ q') : IndepT p q u v := by
  intro M N e k l hk hl
  have s (M : ℕ → ℕ → E.Fr) : ∑ k ∈ range p', ∑ l ∈ range q', (if k < p then (if l < q then M k l else 0) else 0) • pr (u k) (v l)
      = ∑ k ∈ range p, ∑ l ∈ range q, M k l • pr (u k) (v l) := by
    rw [← sum_ext_zero hp]
    refine sum_congr rfl fun k _ => ?_
    split
    · rw [← sum_ext_zero hq]
      refine sum_congr rfl fun l _ => ?_
      split <;> simp
    · simp
  have := h (fun k l => if k < p then (if l < q then M k l else 0) else 0) (fun k l => if k < p then (if l < q then N k l else 0) else 0)
    (by rw [s, s, e]) k l (by omega) (by omega)
  simpa [hk, hl] using this
end Gsv
