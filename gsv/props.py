"""Properties as Lean theorems about the extracted functions (namespace Gsv.X), each derived from the
contracts (Gsv.S) alone.  `prop(id, name, deps, stmt, proof)`."""
import specs as SP
from specs import SIDES, EQS, CRSB, CRSV, SER, DES, SIZ

class Prop:
    def __init__(s, pid, name, deps, stmt, proof):
        s.pid, s.name, s.deps, s.stmt, s.proof = pid, name, deps, stmt.strip(), proof.strip("\n")
PROPS = []
def prop(pid, name, deps, stmt, proof):
    PROPS.append(Prop(pid, f"{pid}_{name}", deps.split() if isinstance(deps, str) else deps, stmt, proof))

def lam(f, v): return f"(fun {v} => {f})"

for Q, d in EQS.items():
    gx, gy, p, q, ix, iy = d['x'], d['y'], d['p'], d['q'], d['ix'], d['iy']
    XT, YT, AT, BT, TT = d['XT'], d['YT'], d['AT'], d['BT'], d['TT']
    cx = 'batch_commit_G1' if gx else 'batch_commit_scalar_B1'
    cy = 'batch_commit_G2' if gy else 'batch_commit_scalar_B2'
    A, B = lam(ix('a j'), 'j'), lam(iy('b i'), 'i')
    X, Y = lam(ix('x i'), 'i'), lam(iy('y j'), 'j')
    d.update(A=A, B=B, X=X, Y=Y, cxs=cx, cys=cy)
    eqb, eqn = d['eqb'], d['eqn']
    V, PR, CAP = f"X.{Q}_Verifiable_verify E", f"X.{Q}_Provable_prove E", f"X.{Q}_Provable_commit_and_prove E"
    wit = f"(x : ℕ → {XT}) (y : ℕ → {YT})"
    ver = f"Ver {p} {q} m n {A} {B} Γ ({d['tgt']}) u v"
    gsat = "gsat_PPE.mpr hs" if Q == 'PPE' else f"gsat_{Q} hs"
    Wx = 'WfG1 u' if gx else 'WfS1 u g1'
    Wy = 'WfG2 v' if gy else 'WfS2 v g2'
    np_, nt_ = ('' if gx else ' 1'), ('' if gy else ' 1')
    oh = (' one_pos' if not gx else '') + (' one_pos' if not gy else '')
    vargs = f"m n a b Γ t {{c}} {{d}} {{R}} {{S}} {{T}} {{pi}} {{th}}{np_}{nt_} u v g1 g2 gt hm hn{oh}"
    # C01
    prop("C01", f"{Q}_shared", f"{Q}_prove {Q}_verify",
f"""∀ {eqb} {wit} {CRSB} (C : Commit1 E) (D : Commit2 E) (s : E.Rng), 0 < m → 0 < n → Sat{Q} m n a b Γ t x y → {Wx} m x C → {Wy} n y D →
    ∃ pf s', {PR} {eqn} (vec m x) (vec n y) C D {CRSV} s = ok (pf, s') ∧ {V} {eqn} (CProof.mk C D [pf]) {CRSV} = ok true""",
f"""rintro m n a b Γ t x y u v g1 g2 gt _ _ s hm hn hs ⟨R, rfl⟩ ⟨S, rfl⟩
obtain ⟨σ, hσ, hpr⟩ := h_{Q}_prove
have h := hpr m n a b Γ t x y (vec m (comX {p} u {X} R)) (vec n (comY {q} v {Y} S)) R S s u v g1 g2 gt hm hn
refine ⟨_, _, h _ rfl, ?_⟩
exact (h_{Q}_verify m n a b Γ t (comX {p} u {X} R) (comY {q} v {Y} S) _ _ _ _ _{' _' if not gx else ''}{' _' if not gy else ''} u v g1 g2 gt hm hn{oh}).trans (congrArg ok (decide_eq_true ((ver_iff_gsat u v R S _).mpr ({gsat}))))""")
    prop("C01", f"{Q}_fresh", f"{Q}_prove {Q}_verify {Q}_cap {cx} {cy}",
f"""∀ {eqb} {wit} {CRSB} (s : E.Rng), 0 < m → 0 < n → Sat{Q} m n a b Γ t x y →
    ∃ P s', {CAP} {eqn} (vec m x) (vec n y) {CRSV} s = ok (P, s') ∧ {V} {eqn} P {CRSV} = ok true""",
f"""intro m n a b Γ t x y u v g1 g2 gt s hm hn hs
have hx := h_{cx} m x s u v g1 g2 gt hm
have hy := fun s => h_{cy} n y s u v g1 g2 gt hn
rw [com{'G' if gx else 'S'}1_form] at hx
simp only [com{'G' if gy else 'S'}2_form] at hy
rw [h_{Q}_cap, hx, Res.bind_ok]
simp only [hy, Res.bind_ok]
obtain ⟨σ, hσ, hpr⟩ := h_{Q}_prove
rw [hpr m n a b Γ t x y _ _ _ _ _ u v g1 g2 gt hm hn _ rfl, Res.bind_ok]
refine ⟨_, _, rfl, ?_⟩
exact (h_{Q}_verify m n a b Γ t _ _ _ _ _ _ _{' _' if not gx else ''}{' _' if not gy else ''} u v g1 g2 gt hm hn{oh}).trans (congrArg ok (decide_eq_true ((ver_iff_gsat u v _ _ _).mpr ({gsat}))))""")
    # C04: verification accepts exactly ...
    vall = f"""P = CProof.mk ⟨vec m c, R⟩ ⟨vec n d, S⟩ [EquProof.mk (vec np π) (vec nt θ) EquType.{d['ty']} T] ∧ {'np = 2' if gx else '0 < np'} ∧ {'nt = 2' if gy else '0 < nt'} ∧ {ver} c d π θ"""
    prop("C04", f"{Q}_decides", f"{Q}_verify",
f"""∀ {eqb} (c : ℕ → Com1 E) (d : ℕ → Com2 E) (R S T : List (List E.Fr)) (π : ℕ → Com2 E) (θ : ℕ → Com1 E) {CRSB}, 0 < m → 0 < n →
    {V} {eqn} (CProof.mk ⟨vec m c, R⟩ ⟨vec n d, S⟩ [EquProof.mk (vec {p} π) (vec {q} θ) EquType.{d['ty']} T]) {CRSV} = ok (decide ({ver} c d π θ))""",
f"""intro m n a b Γ t c d R S T π θ u v g1 g2 gt hm hn
exact h_{Q}_verify m n a b Γ t c d R S T π θ{np_}{nt_} u v g1 g2 gt hm hn{oh}""")
    accepts = f"""∀ {eqb} {CRSB} (P : CProof E), 0 < m → 0 < n → ({V} {eqn} P {CRSV} = ok true ↔
    ∃ (c : ℕ → Com1 E) (d : ℕ → Com2 E) (R S T : List (List E.Fr)) (np nt : ℕ) (π : ℕ → Com2 E) (θ : ℕ → Com1 E), {vall})"""
    acc_pf = f"""intro m n a b Γ t u v g1 g2 gt P hm hn
obtain ⟨⟨C, R⟩, ⟨D, S⟩, l⟩ := P
constructor
· intro h
  have hl : l.length = 1 := by
    by_contra hl
    exact h_{Q}_verify_count _ _ _ _ _ hl h
  obtain ⟨⟨pi, th, ty, T⟩, rfl⟩ := List.length_eq_one_iff.mp hl
  obtain rfl : ty = EquType.{d['ty']} := by
    by_contra hty
    exact h_{Q}_verify_type _ _ _ _ _ _ _ _ _ hty h
  obtain ⟨c, hc⟩ := exists_vec C
  obtain ⟨d, hd⟩ := exists_vec D
  obtain ⟨π, hπ⟩ := exists_vec pi
  obtain ⟨θ, hθ⟩ := exists_vec th
  have hdim : C.length = m ∧ D.length = n ∧ {'pi.length = 2' if gx else '0 < pi.length'} ∧ {'th.length = 2' if gy else '0 < th.length'} := by
    by_contra hne
    rw [hc, hd, hπ, hθ] at h
    exact h_{Q}_verify_dims m n a b Γ t _ _ _ _ c d R S T π θ _ u v g1 g2 gt hm hn hne h
  obtain ⟨h1, h2, h3, h4⟩ := hdim
  refine ⟨c, d, R, S, T, pi.length, th.length, π, θ, ?_, h3, h4, ?_⟩
  · rw [← hπ, ← hθ, ← h1, ← h2, ← hc, ← hd]
  · rw [hc, hd, hπ, hθ, h1, h2{', h3' if gx else ''}{', h4' if gy else ''}, h_{Q}_verify m n a b Γ t c d R S T π θ{'' if gx else ' _'}{'' if gy else ' _'} u v g1 g2 gt hm hn{'' if gx else ' h3'}{'' if gy else ' h4'}] at h
    exact of_decide_eq_true (Res.ok.inj h)
· rintro ⟨c, d, R', S', T, np, nt, π, θ, e, h3, h4, hv⟩
  {'subst h3' if gx else 'skip'}
  {'subst h4' if gy else 'skip'}
  rw [e, h_{Q}_verify m n a b Γ t c d R' S' T π θ{'' if gx else ' _'}{'' if gy else ' _'} u v g1 g2 gt hm hn{'' if gx else ' h3'}{'' if gy else ' h4'}]
  exact congrArg ok (decide_eq_true hv)"""
    adeps = f"{Q}_verify {Q}_verify_count {Q}_verify_type {Q}_verify_dims"
    prop("C04", f"{Q}_accepts", adeps, accepts, acc_pf)
    # C02
    bk = "(p1 : E.G1) (p2 : E.G2) (a1 a2 t1 t2 : E.Fr)"
    decx = "dec1 a1 (P.xcoms.coms.getD i 0)"
    decy = "dec2 a2 (P.ycoms.coms.getD j 0)"
    xb, xa = ('', f"(fun i => {decx})") if gx else (f"(x : ℕ → E.Fr), (∀ i, i < m → {decx} = x i • p1) → ", "x")
    yb, ya = ('', f"(fun j => {decy})") if gy else (f"(y : ℕ → E.Fr), (∀ j, j < n → {decy} = y j • p2) → ", "y")
    inner = f"Sat{Q} m n a b Γ t {xa} {ya}"
    if not gy: inner = f"∀ {yb}{inner}"
    if not gx: inner = f"∀ {xb}{inner}"
    ex = []
    if not gx: ex.append(f"(∃ x : ℕ → E.Fr, ∀ i, {decx} = x i • p1)")
    if not gy: ex.append(f"(∃ y : ℕ → E.Fr, ∀ j, {decy} = y j • p2)")
    snd = f"sound_{Q}" + (' hp1' if Q in ('MSMEG2', 'QuadEqu') else '') + (' hp2' if Q in ('MSMEG1', 'QuadEqu') else '')
    hx = "" if gx else " (fun i hi => by rw [← hx i hi]; dsimp only; rw [vec_getD, if_pos hi])"
    hy = "" if gy else " (fun j hj => by rw [← hy j hj]; dsimp only; rw [vec_getD, if_pos hj])"
    intros = ("" if gx else "x hx ") + ("" if gy else "y hy ")
    congr = f"refine Sat{Q}_congr ?_ ?_ ({snd}{hx}{hy} hv)\n{{i}}· intro i hi; {'dsimp only; rw [vec_getD, if_pos hi]' if gx else 'rfl'}\n{{i}}· intro j hj; {'dsimp only; rw [vec_getD, if_pos hj]' if gy else 'rfl'}"
    prop("C02", f"{Q}_sound", adeps,
f"""∀ {eqb} {bk} (P : CProof E), 0 < m → 0 < n → p1 ≠ 0 → p2 ≠ 0 → {V} {eqn} P (mkCrs p1 p2 a1 a2 t1 t2) = ok true →
    {' ∧ '.join(['P.xcoms.coms.length = m', 'P.ycoms.coms.length = n'] + ex)} ∧ {inner}""",
f"""have acc : {accepts} := by
{chr(10).join('  ' + l for l in acc_pf.split(chr(10)))}
intro m n a b Γ t p1 p2 a1 a2 t1 t2 P hm hn hp1 hp2 h
rw [mkCrs_eq] at h
obtain ⟨c, d, R, S, T, np, nt, π, θ, rfl, h3, h4, hv⟩ := (acc m n a b Γ t _ _ _ _ _ P hm hn).mp h
refine ⟨length_vec _ _, length_vec _ _, {'' if gx else '⟨_, fun i => (E.gen1 p1 _ hp1).choose_spec⟩, '}{'' if gy else '⟨_, fun j => (E.gen2 p2 _ hp2).choose_spec⟩, '}?_⟩
{'intro ' + intros if intros else 'skip'}
{congr.format(i='')}""")
    # C14
    prop("C14", f"{Q}_verifier", f"{Q}_verify_count {Q}_verify_type {Q}_verify_dims",
f"""∀ {eqb} {CRSB} (P : CProof E), 0 < m → 0 < n →
    (P.equ_proofs.length ≠ 1 ∨ (∃ pf ∈ P.equ_proofs, pf.equ_type ≠ EquType.{d['ty']} ∨ pf.pi.length < {p} ∨ pf.theta.length < {q}) ∨ P.xcoms.coms.length ≠ m ∨ P.ycoms.coms.length ≠ n) →
    {V} {eqn} P {CRSV} ≠ ok true""",
f"""intro m n a b Γ t u v g1 g2 gt P hm hn hbad h
obtain ⟨⟨C, R⟩, ⟨D, S⟩, l⟩ := P
have hl : l.length = 1 := by
  by_contra hl
  exact h_{Q}_verify_count _ _ _ _ _ hl h
obtain ⟨⟨pi, th, ty, T⟩, rfl⟩ := List.length_eq_one_iff.mp hl
have hty : ty = EquType.{d['ty']} := by
  by_contra hty
  exact h_{Q}_verify_type _ _ _ _ _ _ _ _ _ hty h
obtain ⟨c, hc⟩ := exists_vec C
obtain ⟨d, hd⟩ := exists_vec D
obtain ⟨π, hπ⟩ := exists_vec pi
obtain ⟨θ, hθ⟩ := exists_vec th
rw [hc, hd, hπ, hθ] at h
refine h_{Q}_verify_dims m n a b Γ t _ _ _ _ c d R S T π θ _ u v g1 g2 gt hm hn ?_ h
rintro ⟨h1, h2, h3, h4⟩
simp only [List.length_singleton, ne_eq, not_true_eq_false, List.mem_singleton, exists_eq_left, hty, false_or, h1, h2, or_false] at hbad
omega""")
    prop("C14", f"{Q}_prover", f"{Q}_prove_mis",
f"""∀ (a : List ({AT})) (b : List ({BT})) (m n : ℕ) (Γ : ℕ → ℕ → E.Fr) (t : {TT}) (xs : List ({XT})) (ys : List ({YT})) (C : List (Com1 E)) (D : List (Com2 E)) (mr nr p q : ℕ) (R S : ℕ → ℕ → E.Fr) {CRSB} (s : E.Rng),
    0 < m → 0 < n → ¬ (a.length = n ∧ b.length = m ∧ xs.length = m ∧ ys.length = n ∧ mr = m ∧ nr = n ∧ p = {p} ∧ q = {q}) →
    {PR} ({Q}.mk a b (mat m n Γ) t) xs ys ⟨C, mat mr p R⟩ ⟨D, mat nr q S⟩ {CRSV} s = panic""",
f"""intro a b m n Γ t xs ys C D mr nr p q R S u v g1 g2 gt s hm hn hne
obtain ⟨a', ha⟩ := exists_vec a
obtain ⟨b', hb⟩ := exists_vec b
obtain ⟨x, hx⟩ := exists_vec xs
obtain ⟨y, hy⟩ := exists_vec ys
rw [ha, hb, hx, hy]
exact h_{Q}_prove_mis m n a.length b.length xs.length ys.length mr nr p q a' b' Γ t x y C D R S s u v g1 g2 gt hm hn hne""")
    # C15
    prop("C15", f"{Q}_order", f"{Q}_cap",
f"""∀ (q : {Q} E) (xs : List {XT}) (ys : List {YT}) (key : CRS E) (s : E.Rng), {CAP} q xs ys key s =
    bind (X.{'batch_commit_G1' if gx else 'batch_commit_scalar_to_B1'} E xs key s) fun cx => bind (X.{'batch_commit_G2' if gy else 'batch_commit_scalar_to_B2'} E ys key cx.2) fun Y => bind ({PR} q xs ys cx.1 Y.1 key Y.2) fun P => ok (CProof.mk cx.1 Y.1 [P.1], P.2)""",
f"exact h_{Q}_cap")
    prop("C15", f"{Q}_shape", f"{Q}_cap {Q}_prove {cx} {cy} {Q}_type",
f"""∀ {eqb} {wit} {CRSB} (s : E.Rng), 0 < m → 0 < n → ∃ (C : Commit1 E) (D : Commit2 E) (pf : EquProof E) (s1 s2 s3 : E.Rng),
    X.{'batch_commit_G1' if gx else 'batch_commit_scalar_to_B1'} E (vec m x) {CRSV} s = ok (C, s1) ∧ X.{'batch_commit_G2' if gy else 'batch_commit_scalar_to_B2'} E (vec n y) {CRSV} s1 = ok (D, s2) ∧
    {PR} {eqn} (vec m x) (vec n y) C D {CRSV} s2 = ok (pf, s3) ∧ {CAP} {eqn} (vec m x) (vec n y) {CRSV} s = ok (CProof.mk C D [pf], s3) ∧
    X.{Q}_Equation_get_type E {eqn} = ok pf.equ_type ∧ pf.equ_type = EquType.{d['ty']} ∧ pf.pi.length = {p} ∧ pf.theta.length = {q} ∧
    C.coms.length = m ∧ D.coms.length = n ∧ s1 = Env.adv s {'(2 * m)' if gx else 'm'} ∧ s2 = Env.adv s1 {'(2 * n)' if gy else 'n'} ∧ s3 = Env.adv s2 {p * q}""",
f"""intro m n a b Γ t x y u v g1 g2 gt s hm hn
have hx := h_{cx} m x s u v g1 g2 gt hm
have hy := fun s => h_{cy} n y s u v g1 g2 gt hn
obtain ⟨σ, hσ, hpr⟩ := h_{Q}_prove
refine ⟨_, _, _, _, _, _, hx, hy _, hpr m n a b Γ t x y _ _ _ _ _ u v g1 g2 gt hm hn _ rfl, ?_, ?_, rfl, ?_, ?_, ?_, ?_, rfl, rfl, rfl⟩
· rw [h_{Q}_cap, hx, Res.bind_ok, hy, Res.bind_ok, hpr m n a b Γ t x y _ _ _ _ _ u v g1 g2 gt hm hn _ rfl, Res.bind_ok]
· exact h_{Q}_type _
all_goals exact length_vec _ _""")
    # C03
    N = f"{p} * m + {q} * n + {q} * {p}"
    def co(side, var, nm, k):
        t = 'g' if (gx if side == 1 else gy) else 's'
        arg = f"hp{side}" if t == 'g' else f"p{side}"
        return f"obtain ⟨{nm}, {k}⟩ := c{t}{side} {arg} a{side} t{side} {var}"
    cos = "\n".join([co(1, 'a', 'ca', 'hA'), co(2, 'b', 'cb', 'hB'), co(1, 'x', 'cx', 'hX'), co(1, "x'", "cx'", "hX'"), co(2, 'y', 'cy', 'hY'), co(2, "y'", "cy'", "hY'")])
    As, As2 = f"(Env.adv s ({p} * m))", f"(Env.adv (Env.adv s ({p} * m)) ({q} * n))"
    ku, kv = "(keyH1 p1 a1 t1)", "(keyH2 p2 a2 t2)"
    sub = lambda t: t.replace('W1 u g1', 'W1 (keyH1 p1 a1 t1) p1').replace('W2 v g2', 'W2 (keyH2 p2 a2 t2) p2')
    Th = f"(fun l k => Env.frAt {As2} (σ l k))"
    rhs = (f"ok (CProof.mk ⟨vec m (comX {p} {ku} {sub(X)} (frMat {p} s)), mat m {p} (frMat {p} s)⟩ ⟨vec n (comY {q} {kv} {sub(Y)} (frMat {q} {As})), mat n {q} (frMat {q} {As})⟩ "
           f"[EquProof.mk (vec {p} (prfπ {q} m n {sub(B)} Γ {kv} {sub(Y)} (frMat {p} s) (frMat {q} {As}) {Th})) (vec {q} (prfθ {p} m n {sub(A)} Γ {ku} {sub(X)} (frMat {q} {As}) {Th})) EquType.{d['ty']} (mat {q} {p} {Th})], Env.adv {As2} {p*q})")
    hcrs = "(hideCrs p1 p2 a1 a2 t1 t2)"
    prop("C03", f"{Q}_wi", f"{Q}_cap {Q}_prove {cx} {cy}",
f"""∀ {eqb} (x x' : ℕ → {XT}) (y y' : ℕ → {YT}) {bk} (s : E.Rng), 0 < m → 0 < n → p1 ≠ 0 → p2 ≠ 0 → Sat{Q} m n a b Γ t x y → Sat{Q} m n a b Γ t x' y' →
    ∃ ρ : ℕ → E.Fr, ∀ s' : E.Rng, (SameTr ({CAP} {eqn} (vec m x) (vec n y) {hcrs} s) ({CAP} {eqn} (vec m x') (vec n y') {hcrs} s')
      ↔ ∀ k, k < {N} → Env.frAt s' k = ρ k)""",
f"""obtain ⟨σ, hσ, hpr⟩ := h_{Q}_prove
intro m n a b Γ t x x' y y' p1 p2 a1 a2 t1 t2 s hm hn hp1 hp2 hs hs'
have hx := fun x s => h_{cx} m x s (keyH1 p1 a1 t1) (keyH2 p2 a2 t2) p1 p2 (E.e p1 p2) hm
have hy := fun y s => h_{cy} n y s (keyH1 p1 a1 t1) (keyH2 p2 a2 t2) p1 p2 (E.e p1 p2) hn
simp only [com{'G' if gx else 'S'}1_form] at hx
simp only [com{'G' if gy else 'S'}2_form] at hy
have hrun : ∀ (x : ℕ → {XT}) (y : ℕ → {YT}) (s : E.Rng), {CAP} {eqn} (vec m x) (vec n y) {hcrs} s = {rhs} := by
  intro x y s
  rw [h_{Q}_cap, hideCrs, hx, Res.bind_ok]
  simp only [hy, Res.bind_ok]
  rw [hpr m n a b Γ t x y _ _ _ _ _ (keyH1 p1 a1 t1) (keyH2 p2 a2 t2) p1 p2 _ hm hn _ rfl, Res.bind_ok]
  rfl
rw [hrun x y s]
have hrun' := hrun x' y'
{cos}
obtain ⟨ρ, H⟩ := wi_lift (m := m) (n := n) (Γ := Γ) (by decide) (by decide) ((indep1_hide (a := a1) (t := t1) hp1).mono (by decide)) ((indep2_hide (a := a2) (t := t2) hp2).mono (by decide))
  ((indepT_hide (a := a1) (t := t1) (a' := a2) (t' := t2) hp1 hp2).mono (by decide) (by decide)) hA hB hX hX' hY hY'
  ({gsat}) ({gsat.replace('hs', "hs'")}) hσ (frMat {p} s) (frMat {q} (Env.adv s ({p} * m))) (fun l k => Env.frAt (Env.adv (Env.adv s ({p} * m)) ({q} * n)) (σ l k))
refine ⟨ρ, fun s' => Iff.trans ?_ (H s')⟩
rw [hrun' s']
exact sameTr_ok""")

# ---- C05, C06: commitments -----------------------------------------------------
for i, d in SIDES.items():
    C, G, io, W, B, uu, gen, com = (d[k] for k in ('C', 'G', 'io', 'W', 'B', 'u', 'gen', 'com'))
    bk = "(p1 : E.G1) (p2 : E.G2) (a1 a2 t1 t2 : E.Fr)"
    for kind in 'GS':
        one = f"commit_{G}" if kind == 'G' else f"commit_scalar_{B}"
        bat = f"batch_commit_{G}" if kind == 'G' else f"batch_commit_scalar_{B}"
        X1 = f"X.commit_{G}" if kind == 'G' else f"X.commit_scalar_to_{B}"
        XB = f"X.batch_commit_{G}" if kind == 'G' else f"X.batch_commit_scalar_to_{B}"
        p = 2 if kind == 'G' else 1
        T = f"E.{G}" if kind == 'G' else "E.Fr"
        emb = (lambda x: f"{io} ({x})") if kind == 'G' else (lambda x: f"({x}) • {W} {uu} {gen}")
        wf = f"Wf{kind}{i} {uu}" if kind == 'G' else f"Wf{kind}{i} {uu} {gen}"
        sums = f"∑ k ∈ Finset.range {p}, Env.frAt s ({p} * i + k) • {uu} k"
        form = lambda n, x: f"(⟨vec {n} fun i => {emb(x)} + {sums}, mat {n} {p} fun i k => Env.frAt s ({p} * i + k)⟩, Env.adv s ({p} * {n}))"
        fl = f"com{kind}{i}_form"
        ex = (f" ({W} {uu} {gen})" if kind == 'S' else '')
        prop("C05", one, one, f"∀ (x : {T}) (s : E.Rng) {CRSB}, {X1} E x {CRSV} s = ok {form('1', 'x')}",
             f"intro x s u v g1 g2 gt\nrw [h_{one} x s u v g1 g2 gt]\nhave := {fl} 1 (fun _ => x) s {uu}{ex}\nrw [← vec1_{kind}{i} x s {uu}{ex}] at this\nexact congrArg ok this")
        prop("C05", bat, bat, f"∀ (m : ℕ) (x : ℕ → {T}) (s : E.Rng) {CRSB}, 0 < m → {XB} E (vec m x) {CRSV} s = ok {form('m', 'x i')}",
             f"intro m x s u v g1 g2 gt hm\nrw [h_{bat} m x s u v g1 g2 gt hm]\nexact congrArg ok ({fl} m x s {uu}{ex})")
        # decryption
        dec = f"dec{i} a{i} (C.coms.getD i 0)"
        val = "x i" if kind == 'G' else f"x i • p{i}"
        prop("C05", bat + "_binds", bat, f"∀ (m : ℕ) (x : ℕ → {T}) (s : E.Rng) {bk}, 0 < m → ∃ C s', {XB} E (vec m x) (mkCrs p1 p2 a1 a2 t1 t2) s = ok (C, s') ∧ ∀ i, i < m → {dec} = {val}",
             f"intro m x s p1 p2 a1 a2 t1 t2 hm\nrw [mkCrs_eq]\nrefine ⟨_, _, h_{bat} m x s _ _ p1 p2 _ hm, fun i hi => ?_⟩\ndsimp only\nrw [vec_getD, if_pos hi]\nsimp")
        val1 = "x" if kind == 'G' else f"x • p{i}"
        prop("C05", one + "_binds", one, f"∀ (x : {T}) (s : E.Rng) {bk}, ∃ C s', {X1} E x (mkCrs p1 p2 a1 a2 t1 t2) s = ok (C, s') ∧ dec{i} a{i} (C.coms.getD 0 0) = {val1}",
             f"intro x s p1 p2 a1 a2 t1 t2\nrw [mkCrs_eq]\nrefine ⟨_, _, h_{one} x s _ _ p1 p2 _, ?_⟩\ndsimp only\nrw [vec_getD, if_pos one_pos]\nsimp")
        # commitments of any origin are well-formed, and stay so when appended
        prop("C05", f"wf_{kind}{i}", f"{one} {bat} {com}_append",
f"""(∀ (x : {T}) (s : E.Rng) {CRSB}, ∃ C s', {X1} E x {CRSV} s = ok (C, s') ∧ {wf} 1 (fun _ => x) C) ∧
  (∀ (m : ℕ) (x : ℕ → {T}) (s : E.Rng) {CRSB}, 0 < m → ∃ C s', {XB} E (vec m x) {CRSV} s = ok (C, s') ∧ {wf} m x C) ∧
  (∀ (m n : ℕ) (x x' : ℕ → {T}) (C C' : {com} E) {CRSB}, {wf} m x C → {wf} n x' C' → ∃ C'', X.{com}_Commit_append E C C' = ok ((), C'', ⟨[], []⟩) ∧ {wf} (m + n) (fun i => if i < m then x i else x' (i - m)) C'')""",
f"""refine ⟨fun x s u v g1 g2 gt => ⟨_, _, h_{one} x s u v g1 g2 gt, frMat {p} s, ?_⟩, fun m x s u v g1 g2 gt hm => ⟨_, _, h_{bat} m x s u v g1 g2 gt hm, frMat {p} s, ?_⟩, ?_⟩
· have := {fl} 1 (fun _ => x) s {uu}{ex}
  rw [← vec1_{kind}{i} x s {uu}{ex}] at this
  exact congrArg Prod.fst this
· exact congrArg Prod.fst ({fl} m x s {uu}{ex})
· rintro m n x x' _ _ u v g1 g2 gt ⟨R, rfl⟩ ⟨R', rfl⟩
  refine ⟨_, h_{com}_append m n _ _ _ _, fun i => if i < m then R i else R' (i - m), ?_⟩
  congr 1
  · refine vec_congr rfl fun i _ => ?_
    dsimp only
    split <;> rfl
  · refine vec_congr rfl fun i _ => ?_
    dsimp only
    split <;> rfl""")
        # C06: batch = one by one
        prop("C06", bat, f"{one} {bat} {com}_append",
f"""∀ (m : ℕ) (x : ℕ → {T}) (s : E.Rng) {CRSB}, {XB} E (vec (m + 1) x) {CRSV} s =
    bind ({X1} E (x 0) {CRSV} s) fun r => iterR m r fun i r => bind ({X1} E (x (i + 1)) {CRSV} r.2) fun c => bind (X.{com}_Commit_append E r.1 c.1) fun a => ok (a.2.1, c.2)""",
f"""intro m x s u v g1 g2 gt
rw [h_{one} (x 0) s u v g1 g2 gt, Res.bind_ok, h_{bat} (m + 1) x s u v g1 g2 gt (Nat.succ_pos m), {fl}, vec1_{kind}{i}, {fl} 1 (fun _ => x 0)]
symm
refine iterR_inv (fun k => ((⟨vec (k + 1) (com{'X' if i == 1 else 'Y'} {p} {uu} (fun i => {emb('x i')}) (frMat {p} s)), mat (k + 1) {p} (frMat {p} s)⟩ : {com} E), Env.adv s ({p} * (k + 1)))) ?_ fun k hk => ?_
· rfl
· rw [h_{one} (x (k + 1)) _ u v g1 g2 gt, Res.bind_ok, vec1_{kind}{i}, {fl} 1 (fun _ => x (k + 1)), h_{com}_append, Res.bind_ok, Env.adv_adv]
  refine congrArg ok ?_
  refine congr (congrArg Prod.mk ?_) rfl
  have hj : ∀ j, j < k + 1 + 1 → ¬ j < k + 1 → j = k + 1 := by omega
  dsimp only
  congr 1
  · refine vec_congr rfl fun j hj' => ?_
    split
    · rfl
    · next h =>
      obtain rfl := hj j hj' h
      simp only [Nat.sub_self, com{'X' if i == 1 else 'Y'}, frMat, Env.frAt_adv, Nat.mul_zero, Nat.zero_add, Nat.add_assoc]
  · refine vec_congr rfl fun j hj' => ?_
    split
    · rfl
    · next h =>
      obtain rfl := hj j hj' h
      refine vec_congr rfl fun k _ => ?_
      simp only [Nat.sub_self, frMat, Env.frAt_adv, Nat.mul_zero, Nat.zero_add, Nat.add_assoc]""")
    prop("C06", f"{com}_append", f"{com}_append",
f"""∀ (m n : ℕ) (c c' : ℕ → {C} E) (r r' : ℕ → List E.Fr), X.{com}_Commit_append E ⟨vec m c, vec m r⟩ ⟨vec n c', vec n r'⟩ = ok ((), ⟨vec m c ++ vec n c', vec m r ++ vec n r'⟩, ⟨[], []⟩)""",
f"intro m n c c' r r'\nrw [h_{com}_append, vec_append, vec_append]")

# ---- C07 ------------------------------------------------------------------------
prop("C07", "gen", "crs_gen",
"""∀ s : E.Rng, ∃ (p1 : E.G1) (p2 : E.G2) (a1 a2 t1 t2 : E.Fr) (s' : E.Rng), Draws s [.g1 p1, .g2 p2, .fr a1, .fr a2, .fr t1, .fr t2] s' ∧
    X.CRS_AbstractCrs_generate_crs E s = ok (⟨[⟨p1, a1 • p1⟩, ⟨t1 • p1, t1 • a1 • p1⟩], [⟨p2, a2 • p2⟩, ⟨t2 • p2, t2 • a2 • p2⟩], p1, p2, E.e p1 p2⟩, s')""",
"exact h_crs_gen")
prop("C07", "binding", "crs_gen",
"""∀ s : E.Rng, ∃ (u0 : Com1 E) (v0 : Com2 E) (t1 t2 : E.Fr) (s' : E.Rng),
    X.CRS_AbstractCrs_generate_crs E s = ok (⟨[u0, t1 • u0], [v0, t2 • v0], u0.f0, v0.f0, E.e u0.f0 v0.f0⟩, s')""",
"intro s\nobtain ⟨p1, p2, a1, a2, t1, t2, s', -, h⟩ := h_crs_gen s\nexact ⟨⟨p1, a1 • p1⟩, ⟨p2, a2 • p2⟩, t1, t2, s', h⟩")
prop("C07", "keys", "crs_bind_key crs_hide_key",
"""∀ (g1 : E.G1) (g2 : E.G2) (q1 : E.G1) (t1 : E.Fr) (q2 : E.G2) (t2 : E.Fr), X.CRS_prepare_real_binding_key E g1 g2 q1 t1 q2 t2 = ok (t1 • q1, t2 • q2) ∧
    X.CRS_prepare_simulated_hinding_key E g1 g2 q1 t1 q2 t2 = bind (X.CRS_prepare_real_binding_key E g1 g2 q1 t1 q2 t2) fun k => ok (k.1 - g1, k.2 - g2)""",
"intros\nrw [h_crs_bind_key, h_crs_hide_key]\nexact ⟨rfl, rfl⟩")
prop("C02", "crs", "crs_gen",
"""∀ s : E.Rng, ∃ (p1 : E.G1) (p2 : E.G2) (a1 a2 t1 t2 : E.Fr) (s' : E.Rng), X.CRS_AbstractCrs_generate_crs E s = ok (mkCrs p1 p2 a1 a2 t1 t2, s')""",
"intro s\nobtain ⟨p1, p2, a1, a2, t1, t2, s', -, h⟩ := h_crs_gen s\nexact ⟨p1, p2, a1, a2, t1, t2, s', h⟩")
prop("C03", "crs", "crs_hide_key",
"""∀ (p1 : E.G1) (p2 : E.G2) (a1 a2 t1 t2 : E.Fr), ∃ k : E.G1 × E.G2, X.CRS_prepare_simulated_hinding_key E p1 p2 (a1 • p1) t1 (a2 • p2) t2 = ok k ∧
    hideCrs p1 p2 a1 a2 t1 t2 = ⟨[⟨p1, a1 • p1⟩, ⟨t1 • p1, k.1⟩], [⟨p2, a2 • p2⟩, ⟨t2 • p2, k.2⟩], p1, p2, E.e p1 p2⟩""",
"intros\nexact ⟨_, h_crs_hide_key _ _ _ _ _ _, rfl⟩")

# ---- C08 ------------------------------------------------------------------------
for C in ('Com1', 'Com2', 'ComT'):
    T = f"{C} E"
    fs = ['f0', 'f1'] if C != 'ComT' else ['f0', 'f1', 'f2', 'f3']
    comp = lambda f: "⟨" + ", ".join(f(x) for x in fs) + "⟩"
    F = f"X.{C}_"
    add, sub, neg = f"{F}Add_add E", f"{F}Sub_sub E", f"{F}Neg_neg E"
    prop("C08", f"{C}_comp", f"{C}_add {C}_sub {C}_neg {C}_add_assign {C}_sub_assign {C}_zero {C}_is_zero {C}_sum {C}_eq {C}_clone",
f"""∀ a b : {T}, {add} a b = ok {comp(lambda f: f'a.{f} + b.{f}')} ∧ {sub} a b = ok {comp(lambda f: f'a.{f} - b.{f}')} ∧ {neg} a = ok {comp(lambda f: f'-a.{f}')} ∧
    {F}AddAssign_add_assign E a b = ok ((), {comp(lambda f: f'a.{f} + b.{f}')}) ∧ {F}SubAssign_sub_assign E a b = ok ((), {comp(lambda f: f'a.{f} - b.{f}')}) ∧
    {F}Zero_zero E = ok {comp(lambda f: '0')} ∧ {F}Zero_is_zero E a = ok (decide ({' ∧ '.join(f'a.{f} = 0' for f in fs)})) ∧
    {F}PartialEq_eq E a b = ok (decide ({' ∧ '.join(f'a.{f} = b.{f}' for f in fs)})) ∧ {F}Clone_clone E a = ok a ∧
    ∀ (n : ℕ) (x : ℕ → {T}), {F}Sum_sum E (vec n x) = ok {comp(lambda f: f'∑ i ∈ Finset.range n, (x i).{f}')}""",
f"""intro a b
refine ⟨h_{C}_add a b, h_{C}_sub a b, h_{C}_neg a, h_{C}_add_assign a b, h_{C}_sub_assign a b, h_{C}_zero, ?_, ?_, h_{C}_clone a, fun n x => (h_{C}_sum n x).trans (congrArg ok ?_)⟩
· rw [h_{C}_is_zero]; exact congrArg ok (decide_eq_decide.mpr {C}.ext_iff)
· rw [h_{C}_eq]; exact congrArg ok (decide_eq_decide.mpr {C}.ext_iff)
· ext <;> simp""")
    prop("C08", f"{C}_group", f"{C}_add {C}_sub {C}_neg {C}_zero {C}_sum",
f"""(∀ a b : {T}, {add} a b = {add} b a) ∧ (∀ a b c : {T}, (bind ({add} a b) fun t => {add} t c) = bind ({add} b c) fun t => {add} a t) ∧
    (∀ a : {T}, (bind ({F}Zero_zero E) fun z => {add} a z) = ok a) ∧ (∀ a : {T}, (bind ({neg} a) fun t => {add} a t) = {F}Zero_zero E) ∧
    (∀ a b : {T}, {sub} a b = bind ({neg} b) fun t => {add} a t) ∧
    {F}Sum_sum E (vec 0 fun _ => 0) = {F}Zero_zero E ∧ (∀ (n : ℕ) (x : ℕ → {T}), {F}Sum_sum E (vec (n + 1) x) = bind ({F}Sum_sum E (vec n x)) fun t => {add} t (x n))""",
f"""simp only [h_{C}_add, h_{C}_sub, h_{C}_neg, h_{C}_zero, h_{C}_sum, Res.bind_ok]
refine ⟨fun a b => by rw [add_comm], fun a b c => by rw [add_assoc], fun a => by rw [add_zero], fun a => by rw [add_neg_cancel], fun a b => by rw [sub_eq_add_neg], rfl, fun n x => by rw [Finset.sum_range_succ]⟩""")
    if C != 'ComT':
        i = C[-1]
        sm = f"{F}B{i}_scalar_mul E"
        prop("C08", f"{C}_module", f"{C}_add {C}_zero {C}_smul",
f"""(∀ (a : {T}) (c : E.Fr), {sm} a c = ok {comp(lambda f: f'c • a.{f}')}) ∧ (∀ a : {T}, {sm} a 1 = ok a) ∧ (∀ a : {T}, {sm} a 0 = {F}Zero_zero E) ∧
    (∀ (a : {T}) (c d : E.Fr), (bind ({sm} a d) fun t => {sm} t c) = {sm} a (c * d)) ∧
    (∀ (a b : {T}) (c : E.Fr), (bind ({add} a b) fun t => {sm} t c) = bind ({sm} a c) fun s => bind ({sm} b c) fun t => {add} s t) ∧
    (∀ (a : {T}) (c d : E.Fr), {sm} a (c + d) = bind ({sm} a c) fun s => bind ({sm} a d) fun t => {add} s t)""",
f"""simp only [h_{C}_add, h_{C}_zero, h_{C}_smul, Res.bind_ok]
refine ⟨fun a c => rfl, fun a => by rw [one_smul], fun a => by rw [zero_smul], fun a c d => by rw [smul_smul], fun a b c => by rw [smul_add], fun a c d => by rw [add_smul]⟩""")

# ---- C09 ------------------------------------------------------------------------
pp, a1, a2, aT = "X.ComT_BT_pairing E", "X.Com1_Add_add E", "X.Com2_Add_add E", "X.ComT_Add_add E"
m1, m2 = "X.Com1_B1_scalar_mul E", "X.Com2_B2_scalar_mul E"
prop("C09", "matrix", "pairing", f"∀ (x : Com1 E) (y : Com2 E), {pp} x y = ok ⟨E.e x.f0 y.f0, E.e x.f0 y.f1, E.e x.f1 y.f0, E.e x.f1 y.f1⟩", "exact h_pairing")
prop("C09", "bilinear", "pairing Com1_add Com2_add ComT_add Com1_smul Com2_smul",
f"""(∀ (x x' : Com1 E) (y : Com2 E), (bind ({a1} x x') fun t => {pp} t y) = bind ({pp} x y) fun s => bind ({pp} x' y) fun t => {aT} s t) ∧
    (∀ (x : Com1 E) (y y' : Com2 E), (bind ({a2} y y') fun t => {pp} x t) = bind ({pp} x y) fun s => bind ({pp} x y') fun t => {aT} s t) ∧
    (∀ (c : E.Fr) (x : Com1 E) (y : Com2 E), ∃ z, {pp} x y = ok z ∧ (bind ({m1} x c) fun t => {pp} t y) = ok ⟨c • z.f0, c • z.f1, c • z.f2, c • z.f3⟩ ∧ (bind ({m2} y c) fun t => {pp} x t) = ok ⟨c • z.f0, c • z.f1, c • z.f2, c • z.f3⟩) ∧
    (∀ (x : Com1 E) (y : Com2 E), {pp} x y = ok 0 ↔ E.e x.f0 y.f0 = 0 ∧ E.e x.f0 y.f1 = 0 ∧ E.e x.f1 y.f0 = 0 ∧ E.e x.f1 y.f1 = 0) ∧
    (∀ (x : Com1 E) (y : Com2 E), {pp} x y = ok 0 ↔ x = 0 ∨ y = 0)""",
"""simp only [h_pairing, h_Com1_add, h_Com2_add, h_ComT_add, h_Com1_smul, h_Com2_smul, Res.bind_ok]
refine ⟨fun x x' y => by rw [pr_add_left], fun x y y' => by rw [pr_add_right], fun c x y => ⟨_, rfl, by rw [pr_smul_left]; rfl, by rw [pr_smul_right]; rfl⟩, fun x y => ?_, fun x y => ?_⟩
· rw [Res.ok.injEq, ComT.ext_iff]; rfl
· rw [Res.ok.injEq]; exact pr_eq_zero""")
ps = "X.ComT_BT_pairing_sum E"
prop("C09", "sum", "pairing pairing_sum pairing_sum_mis ComT_add",
f"""(∀ (n : ℕ) (x : ℕ → Com1 E) (y : ℕ → Com2 E), {ps} (vec n x) (vec n y) = iterR n 0 fun i s => bind ({pp} (x i) (y i)) fun t => {aT} s t) ∧
    {ps} [] [] = ok 0 ∧ (∀ (xs : List (Com1 E)) (ys : List (Com2 E)), xs.length ≠ ys.length → {ps} xs ys = panic)""",
"""simp only [h_pairing, h_ComT_add, Res.bind_ok]
refine ⟨fun n x y => ?_, h_pairing_sum 0 (fun _ => 0) (fun _ => 0), fun xs ys h => ?_⟩
· rw [h_pairing_sum, iterR_sum, zero_add]
· obtain ⟨x, hx⟩ := exists_vec xs
  obtain ⟨y, hy⟩ := exists_vec ys
  rw [hx, hy]
  exact h_pairing_sum_mis _ _ _ _ h""")

# ---- C10 ------------------------------------------------------------------------
l1, l2, s1, s2 = "X.Com1_B1_linear_map E", "X.Com2_B2_linear_map E", "X.Com1_B1_scalar_linear_map E", "X.Com2_B2_scalar_linear_map E"
for i, d in SIDES.items():
    C, G, B, W, uu, gen = d['C'], d['G'], d['B'], d['W'], d['u'], d['gen']
    l, s_, ad = f"X.{C}_{B}_linear_map E", f"X.{C}_{B}_scalar_linear_map E", f"X.{C}_Add_add E"
    prop("C10", f"{B}_hom", f"{C}_lin {C}_slin {C}_add {C}_smul",
f"""(∀ x y : E.{G}, {l} (x + y) = bind ({l} x) fun s => bind ({l} y) fun t => {ad} s t) ∧ (∀ x y : E.{G}, {l} x = {l} y → x = y) ∧
    (∀ (x y : E.Fr) {CRSB}, {s_} (x + y) {CRSV} = bind ({s_} x {CRSV}) fun s => bind ({s_} y {CRSV}) fun t => {ad} s t) ∧
    (∀ (x y : E.Fr) {CRSB}, {s_} (x * y) {CRSV} = bind ({s_} y {CRSV}) fun t => X.{C}_{B}_scalar_mul E t x)""",
f"""simp only [h_{C}_lin, h_{C}_add, h_{C}_smul, Res.bind_ok, io{i}_add, Res.ok.injEq, io{i}_inj]
refine ⟨fun _ _ => trivial, fun _ _ h => h, fun x y u v g1 g2 gt => ?_, fun x y u v g1 g2 gt => ?_⟩
· rw [h_{C}_slin, h_{C}_slin, h_{C}_slin]; simp only [Res.bind_ok, h_{C}_add, add_smul]
· rw [h_{C}_slin, h_{C}_slin]; simp only [Res.bind_ok, h_{C}_smul, smul_smul]""")
    prop("C10", f"{B}_batch", f"{C}_lin {C}_slin {C}_batch_lin {C}_batch_slin",
f"""(∀ (n : ℕ) (x : ℕ → E.{G}), X.{C}_{B}_batch_linear_map E (vec n x) = tabR n fun i => {l} (x i)) ∧
    (∀ (n : ℕ) (x : ℕ → E.Fr) {CRSB}, X.{C}_{B}_batch_scalar_linear_map E (vec n x) {CRSV} = tabR n fun i => {s_} (x i) {CRSV})""",
f"""simp only [h_{C}_lin, tabR_ok]
refine ⟨h_{C}_batch_lin, fun n x u v g1 g2 gt => ?_⟩
rw [h_{C}_batch_slin]
refine Eq.symm ((tabR_congr rfl fun i _ => h_{C}_slin (x i) _ _ _ _ _).trans (tabR_ok n _))""")
tl = {'PPE': lambda z: f"X.ComT_BT_linear_map_PPE E ({z})", 'MSMEG1': lambda z: f"X.ComT_BT_linear_map_MSMEG1 E ({z}) {CRSV}",
      'MSMEG2': lambda z: f"X.ComT_BT_linear_map_MSMEG2 E ({z}) {CRSV}", 'QuadEqu': lambda z: f"X.ComT_BT_linear_map_quad E ({z}) {CRSV}"}
tspec = {'PPE': 'lin_PPE', 'MSMEG1': 'lin_MSMEG1', 'MSMEG2': 'lin_MSMEG2', 'QuadEqu': 'lin_quad'}
for Q, d in EQS.items():
    gx, gy = d['x'], d['y']
    L = lambda z: f"{l1} ({z})" if gx else f"{s1} ({z}) {CRSV}"
    Rr = lambda z: f"{l2} ({z})" if gy else f"{s2} ({z}) {CRSV}"
    prod = {'PPE': 'E.e x y', 'MSMEG1': 'y • x', 'MSMEG2': 'x • y', 'QuadEqu': 'x * y'}[Q]
    sx, sy = ('Com1_lin' if gx else 'Com1_slin'), ('Com2_lin' if gy else 'Com2_slin')
    fin = {'PPE': 'exact congrArg ok (pr_io x y)', 'MSMEG1': 'rw [io1_smul, pr_smul_left, pr_smul_right]', 'MSMEG2': 'rw [io2_smul, pr_smul_left, pr_smul_right]',
           'QuadEqu': 'rw [pr_smul_left, pr_smul_right, smul_smul]'}[Q]
    fin2 = {'PPE': 'rw [ioT_add]', 'MSMEG1': 'rw [io1_add, pr_add_left]', 'MSMEG2': 'rw [io2_add, pr_add_right]', 'QuadEqu': 'rw [add_smul]'}[Q]
    t = tl[Q]
    prop("C10", f"{Q}_commutes", f"pairing {sx} {sy} {tspec[Q]} ComT_add",
f"""(∀ (x : {d['XT']}) (y : {d['YT']}) {CRSB}, (bind ({L('x')}) fun s => bind ({Rr('y')}) fun t => {pp} s t) = {t(prod)}) ∧
    (∀ (z z' : {d['TT']}) {CRSB}, {t("z + z'")} = bind ({t('z')}) fun s => bind ({t("z'")}) fun t => {aT} s t)""",
f"""refine ⟨fun x y u v g1 g2 gt => ?_, fun z z' u v g1 g2 gt => ?_⟩
· rw [h_{sx}, h_{sy}, h_{tspec[Q]}, Res.bind_ok, Res.bind_ok, h_pairing]; {fin}
· rw [h_{tspec[Q]}, h_{tspec[Q]}, h_{tspec[Q]}, Res.bind_ok, Res.bind_ok, h_ComT_add]; {fin2}""")

# ---- C11 ------------------------------------------------------------------------
for K in ('Com1', 'Com2', 'Fr'):
    p = f"Mat{K}"
    by = {s.name: s for s in SP.SPECS}
    for op in ('add', 'add_mis', 'neg', 'smul', 'tr', 'rmul_par', 'rmul_seq', 'lmul_par', 'lmul_seq', 'rmul_par_mis', 'rmul_seq_mis', 'lmul_par_mis', 'lmul_seq_mis'):
        prop("C11", f"{p}_{op}", f"{p}_{op}", by[f"{p}_{op}"].stmt, f"exact h_{p}_{op}")
    T = {'Com1': 'Com1 E', 'Com2': 'Com2 E', 'Fr': 'E.Fr'}[K]
    for o, f, args in (('rmul', 'right_mul', 'm n k'), ('lmul', 'left_mul', 'm n k')):
        ar = "(mat m n A) (mat n k R)" if o == 'rmul' else "(mat n k A) (mat m n R)"
        prop("C11", f"{p}_{o}_same", f"{p}_{o}_par {p}_{o}_seq",
             f"∀ (m n k : ℕ) (A : ℕ → ℕ → {T}) (R : ℕ → ℕ → E.Fr), 0 < m → 0 < n → 0 < k → X.Mat_{K}_Mat_{f} E {ar} true = X.Mat_{K}_Mat_{f} E {ar} false",
             f"intro m n k A R hm hn hk\nrw [h_{p}_{o}_par m n k A R hm hn hk, h_{p}_{o}_seq m n k A R hm hn hk]")

# ---- C12 ------------------------------------------------------------------------
prop("C12", "columns", "col_to_vec col_to_vec_row vec_to_col vec_to_col_nil col_to_vec_nil",
"""(∀ (F : Type) (l : List F), (bind (X.vec_to_col_vec E l) fun t => X.col_vec_to_vec E t) = ok l) ∧
    (∀ (F : Type) (n : ℕ) (x : ℕ → F), X.vec_to_col_vec E (vec n x) = ok (vec n fun i => [x i])) ∧
    (∀ (F : Type) (n : ℕ) (x : ℕ → F), X.col_vec_to_vec E (vec n fun i => [x i]) = ok (vec n x)) ∧
    (∀ (F : Type) (l : List F), X.col_vec_to_vec E [l] = ok l)""",
"""refine ⟨fun F l => ?_, fun F n x => h_vec_to_col F n x, fun F n x => h_col_to_vec F n x, h_col_to_vec_row⟩
cases l with
| nil => rw [h_vec_to_col_nil, Res.bind_ok, h_col_to_vec_nil]
| cons a l =>
  haveI : Inhabited F := ⟨a⟩
  obtain ⟨x, hx⟩ := exists_vec (a :: l)
  rw [hx, h_vec_to_col, Res.bind_ok, h_col_to_vec]""")
for i, d in SIDES.items():
    C, G, B = d['C'], d['G'], d['B']
    prop("C12", f"{B}_elem", f"{C}_as_col {C}_as_vec {C}_from {C}_from_bad",
f"""(∀ a : {C} E, X.{C}_{B}_as_col_vec E a = ok [[a.f0], [a.f1]]) ∧ (∀ a : {C} E, X.{C}_{B}_as_vec E a = ok [a.f0, a.f1]) ∧
    (∀ a b : E.{G}, X.{C}_From_from E [[a], [b]] = ok ⟨a, b⟩) ∧ (∀ a : {C} E, (bind (X.{C}_{B}_as_col_vec E a) fun t => X.{C}_From_from E t) = ok a) ∧
    (∀ l : List (List E.{G}), (¬ ∃ a b, l = [[a], [b]]) → X.{C}_From_from E l = panic)""",
f"""have hc : ∀ a : {C} E, X.{C}_{B}_as_col_vec E a = ok [[a.f0], [a.f1]] := fun a => h_{C}_as_col a
refine ⟨hc, fun a => h_{C}_as_vec a, h_{C}_from, fun a => ?_, h_{C}_from_bad⟩
rw [hc, Res.bind_ok, h_{C}_from]""")
prop("C12", "BT_elem", "ComT_as_mat ComT_from ComT_from_bad",
"""(∀ a : ComT E, X.ComT_BT_as_matrix E a = ok [[a.f0, a.f1], [a.f2, a.f3]]) ∧ (∀ a b c d : E.GT, X.ComT_From_from E [[a, b], [c, d]] = ok ⟨a, b, c, d⟩) ∧
    (∀ a : ComT E, (bind (X.ComT_BT_as_matrix E a) fun t => X.ComT_From_from E t) = ok a) ∧
    (∀ l : List (List E.GT), (¬ ∃ a b c d, l = [[a, b], [c, d]]) → X.ComT_From_from E l = panic)""",
"""refine ⟨h_ComT_as_mat, h_ComT_from, fun a => ?_, h_ComT_from_bad⟩
rw [h_ComT_as_mat, Res.bind_ok, h_ComT_from]""")

# ---- C13 ------------------------------------------------------------------------
for T in ('Com1', 'Com2', 'CRS', 'Commit1', 'Commit2', 'EquProof', 'PPE', 'MSMEG1', 'MSMEG2', 'QuadEqu'):
    fits = "True" if T in ('Com1', 'Com2') else f"{T}.Fits x"
    eq = [] if T == 'CRS' else [f"{T}_eq"]
    prop("C13", T, [f"{T}_rt"] + eq,
f"""∀ (c : Compress) (v : Validate) (x : {T} E), {fits} → ∃ bs : Bytes, (∀ w, X.{T}_{SER} E x w c = ok (.ok (), w ++ bs)) ∧
    (∀ r, X.{T}_{DES} E (bs ++ r) c v = ok (.ok x, r)) ∧ X.{T}_{SIZ} E x c = ok bs.length{f' ∧ X.{T}_PartialEq_eq E x x = ok true' if eq else ''}""",
f"""obtain ⟨enc, h⟩ := h_{T}_rt
intro c v x hx
exact ⟨enc c x, fun w => (h c v).ser x w hx, fun r => (h c v).de x r hx, (h c v).sz x hx{f', by rw [h_{T}_eq]; simp' if eq else ''}⟩""")
    prop("C13", T + "_valid", f"{T}_check {T}_valid", f"(∀ x : {T} E, X.{T}_Valid_check E x = ok (.ok ())) ∧ ∀ l : List ({T} E), X.{T}_Valid_batch_check E l = ok (.ok ())", f"exact ⟨h_{T}_check, h_{T}_valid⟩")
prop("C13", "EquType", "EquType_enc EquType_dec EquType_size EquType_dec_bad EquType_dec_nil EquType_eq EquType_check",
f"""(∀ (x : EquType) (w r : Bytes) (c : Compress) (v : Validate), X.EquType_{SER} E x w c = ok (.ok (), w ++ [match x with | .PairingProduct => 0 | .MultiScalarG1 => 1 | .MultiScalarG2 => 2 | .Quadratic => 3]) ∧
      X.EquType_{DES} E ([match x with | .PairingProduct => 0 | .MultiScalarG1 => 1 | .MultiScalarG2 => 2 | .Quadratic => 3] ++ r) c v = ok (.ok x, r) ∧ X.EquType_{SIZ} E x c = ok 1) ∧
    (∀ (b : ℕ) (r : Bytes) (c : Compress) (v : Validate), 3 < b → ∃ e r', X.EquType_{DES} E (b :: r) c v = ok (.error e, r')) ∧
    (∀ (c : Compress) (v : Validate), ∃ e r', X.EquType_{DES} E [] c v = ok (.error e, r')) ∧ (∀ x y, X.EquType_PartialEq_eq E x y = ok (decide (x = y))) ∧ (∀ x, X.EquType_Valid_check E x = ok (.ok ()))""",
"""refine ⟨fun x w r c v => ?_, h_EquType_dec_bad, h_EquType_dec_nil, h_EquType_eq, h_EquType_check⟩
have h1 := h_EquType_enc x w c
have h2 := h_EquType_dec x r c v
cases x <;> exact ⟨h1, h2, h_EquType_size _ c⟩""")
prop("C13", "clones", "crs_clone Commit1_clone Commit2_clone EquType_clone EquProof_clone CProof_clone PPE_clone MSMEG1_clone MSMEG2_clone QuadEqu_clone",
     "(∀ x : CRS E, X.CRS_Clone_clone E x = ok x) ∧ " + " ∧ ".join(f"(∀ x : {t}{'' if t == 'EquType' else ' E'}, X.{t}_Clone_clone E x = ok x)" for t in ('Commit1', 'Commit2', 'EquType', 'EquProof', 'CProof', 'PPE', 'MSMEG1', 'MSMEG2', 'QuadEqu')),
     "exact ⟨h_crs_clone, h_Commit1_clone, h_Commit2_clone, h_EquType_clone, h_EquProof_clone, h_CProof_clone, h_PPE_clone, h_MSMEG1_clone, h_MSMEG2_clone, h_QuadEqu_clone⟩")
