"""Contracts.  Each contract is a named Lean proposition about one or two extracted functions,
in terms of the mathematical objects of lean/Gsv only.  `fns` are the functions it is about
(Lean names under Gsv.X); `proof` overrides the default proof script."""

class Spec:
    def __init__(s, name, fns, stmt, proof=None, roots=1):
        # fns[:roots] are the functions proved, fns[roots:] are kept opaque in the statement
        s.name, s.fns, s.stmt, s.proof, s.roots = name, fns, stmt, proof, roots

SPECS = []
def spec(name, fns, stmt, proof=None, roots=1):
    if isinstance(fns, str):
        fns = [fns]
    SPECS.append(Spec(name, fns, stmt.strip(), proof, roots))

AUTO = None
DEF = "gs_go [{HS}]"

SIDES = {
    1: dict(C='Com1', G='G1', io='io1', W='W1', u='u', gen='g1', B='B1', dr='1', com='Commit1'),
    2: dict(C='Com2', G='G2', io='io2', W='W2', u='v', gen='g2', B='B2', dr='2', com='Commit2'),
}
CRSB = "(u : ℕ → Com1 E) (v : ℕ → Com2 E) (g1 : E.G1) (g2 : E.G2) (gt : E.GT)"
CRSV = "(CRS.mk (vec 2 u) (vec 2 v) g1 g2 gt)"

# ---- group operations (C08) ------------------------------------------------
for C in ('Com1', 'Com2', 'ComT'):
    ext = "  all_goals first | done | rfl | (ext <;> simp <;> first | done | abel)\n"
    T = f"{C} E"
    spec(f"{C}_clone", f"{C}_Clone_clone", f"∀ a : {T}, X.{C}_Clone_clone E a = ok a", DEF)
    spec(f"{C}_eq", f"{C}_PartialEq_eq", f"∀ a b : {T}, X.{C}_PartialEq_eq E a b = ok (decide (a = b))",
         f"gs_simp [{{HS}}] <;> gs_bool {C}.ext_iff")
    spec(f"{C}_add", f"{C}_Add_add", f"∀ a b : {T}, X.{C}_Add_add E a b = ok (a + b)", "gs_comp [{HS}]")
    spec(f"{C}_sub", f"{C}_Sub_sub", f"∀ a b : {T}, X.{C}_Sub_sub E a b = ok (a - b)", "gs_comp [{HS}]")
    spec(f"{C}_neg", f"{C}_Neg_neg", f"∀ a : {T}, X.{C}_Neg_neg E a = ok (-a)", "gs_comp [{HS}]")
    spec(f"{C}_add_assign", f"{C}_AddAssign_add_assign",
         f"∀ a b : {T}, X.{C}_AddAssign_add_assign E a b = ok ((), a + b)", "gs_comp [{HS}]")
    spec(f"{C}_sub_assign", f"{C}_SubAssign_sub_assign",
         f"∀ a b : {T}, X.{C}_SubAssign_sub_assign E a b = ok ((), a - b)", "gs_comp [{HS}]")
    spec(f"{C}_zero", f"{C}_Zero_zero", f"X.{C}_Zero_zero E = ok (0 : {T})", "gs_comp [{HS}]")
    spec(f"{C}_is_zero", f"{C}_Zero_is_zero", f"∀ a : {T}, X.{C}_Zero_is_zero E a = ok (decide (a = 0))",
         f"gs_simp [{{HS}}] <;> gs_bool {C}.ext_iff")
    spec(f"{C}_sum", f"{C}_Sum_sum",
         f"∀ (n : ℕ) (x : ℕ → {T}), X.{C}_Sum_sum E (vec n x) = ok (∑ i ∈ Finset.range n, x i)",
         "gs_go [{HS}, zero_add, add_zero]")

for i, d in SIDES.items():
    C, G, io, W, B, uu, gen = (d[k] for k in ('C', 'G', 'io', 'W', 'B', 'u', 'gen'))
    P = f"X.{C}_{B}_"
    F = f"{C}_{B}_"
    spec(f"{C}_smul", F+"scalar_mul", f"∀ (a : {C} E) (c : E.Fr), {P}scalar_mul E a c = ok (c • a)", "gs_comp [{HS}]")
    # embeddings (C10)
    spec(f"{C}_lin", F+"linear_map", f"∀ x : E.{G}, {P}linear_map E x = ok ({io} x)", "gs_comp [{HS}, " + io + "]")
    spec(f"{C}_batch_lin", F+"batch_linear_map",
         f"∀ (n : ℕ) (x : ℕ → E.{G}), {P}batch_linear_map E (vec n x) = ok (vec n fun i => {io} (x i))", DEF)
    spec(f"{C}_batch_lin_nil", F+"batch_linear_map", f"{P}batch_linear_map E [] = ok []", "gs_go [{HS}]")
    key = f"(u : ℕ → {C} E) (r : List ({'Com2' if i == 1 else 'Com1'} E)) (g1 : E.G1) (g2 : E.G2) (gt : E.GT)"
    kv = "(CRS.mk (vec 2 u) r g1 g2 gt)" if i == 1 else "(CRS.mk r (vec 2 u) g1 g2 gt)"
    spec(f"{C}_slin", F+"scalar_linear_map",
         f"∀ (x : E.Fr) {key}, {P}scalar_linear_map E x {kv} = ok (x • {W} u {gen})", "gs_comp [{HS}, " + W + "]")
    spec(f"{C}_batch_slin", F+"batch_scalar_linear_map",
         f"∀ (n : ℕ) (x : ℕ → E.Fr) {key}, {P}batch_scalar_linear_map E (vec n x) {kv} = ok (vec n fun i => x i • {W} u {gen})", DEF)
    spec(f"{C}_batch_slin_nil", F+"batch_scalar_linear_map", f"∀ {key}, {P}batch_scalar_linear_map E [] {kv} = ok []", DEF)
    # conversions (C12)
    spec(f"{C}_as_col", F+"as_col_vec",
         f"∀ a : {C} E, {P}as_col_vec E a = ok (mat 2 1 fun i _ => sel2 a.f0 a.f1 i)", "gs_go [{HS}]")
    spec(f"{C}_as_vec", F+"as_vec",
         f"∀ a : {C} E, {P}as_vec E a = ok (vec 2 (sel2 a.f0 a.f1))", "gs_go [{HS}]")
    spec(f"{C}_from", f"{C}_From_from",
         f"∀ a b : E.{G}, X.{C}_From_from E [[a], [b]] = ok ⟨a, b⟩", "gs_go [{HS}]")
    spec(f"{C}_from_bad", f"{C}_From_from",
         f"∀ l : List (List E.{G}), (¬ ∃ a b, l = [[a], [b]]) → X.{C}_From_from E l = panic",
         "intro l h\nsimp only [{UNF}]\ngs_badshape l h [{HS}]")

spec("ComT_as_mat", "ComT_BT_as_matrix",
     "∀ a : ComT E, X.ComT_BT_as_matrix E a = ok [[a.f0, a.f1], [a.f2, a.f3]]", "gs_go [{HS}]")
spec("ComT_from", "ComT_From_from",
     "∀ a b c d : E.GT, X.ComT_From_from E [[a, b], [c, d]] = ok ⟨a, b, c, d⟩", "gs_go [{HS}]")
spec("ComT_from_bad", "ComT_From_from",
     "∀ l : List (List E.GT), (¬ ∃ a b c d, l = [[a, b], [c, d]]) → X.ComT_From_from E l = panic",
     "intro l h\nsimp only [{UNF}]\ngs_badshape l h [{HS}]")
spec("col_to_vec", "col_vec_to_vec",
     "∀ (F : Type) (n : ℕ) (x : ℕ → F), X.col_vec_to_vec E (mat n 1 fun i _ => x i) = ok (vec n x)",
     "intro F n x\nsimp only [{UNF}]\nby_cases hn : n = 1 <;> (try subst hn) <;> gs_go [{HS}]")
spec("col_to_vec_row", "col_vec_to_vec",
     "∀ (F : Type) (l : List F), X.col_vec_to_vec E [l] = ok l", "gs_go [{HS}, idxR_cons_zero]")
spec("vec_to_col", "vec_to_col_vec",
     "∀ (F : Type) (n : ℕ) (x : ℕ → F), X.vec_to_col_vec E (vec n x) = ok (mat n 1 fun i _ => x i)", "gs_go [{HS}]")
spec("col_to_vec_nil", "col_vec_to_vec", "∀ (F : Type), X.col_vec_to_vec E ([] : List (List F)) = ok ([] : List F)", "gs_go [{HS}]")
spec("vec_to_col_nil", "vec_to_col_vec", "∀ (F : Type), X.vec_to_col_vec E ([] : List F) = ok []", "gs_go [{HS}]")

# ---- pairing (C09), target embeddings (C10) --------------------------------
spec("pairing", "ComT_BT_pairing", "∀ (x : Com1 E) (y : Com2 E), X.ComT_BT_pairing E x y = ok (pr x y)", "gs_comp [{HS}, pr]")
spec("pairing_sum", "ComT_BT_pairing_sum",
     "∀ (n : ℕ) (x : ℕ → Com1 E) (y : ℕ → Com2 E), X.ComT_BT_pairing_sum E (vec n x) (vec n y) = ok (∑ i ∈ Finset.range n, pr (x i) (y i))",
     "gs_comp [{HS}, pr]")
spec("pairing_sum_mis", "ComT_BT_pairing_sum",
     "∀ (n n' : ℕ) (x : ℕ → Com1 E) (y : ℕ → Com2 E), n ≠ n' → X.ComT_BT_pairing_sum E (vec n x) (vec n' y) = panic",
     "gs_go [{HS}]")
spec("pairing_sum_nil_l", "ComT_BT_pairing_sum",
     "∀ (n : ℕ) (y : ℕ → Com2 E), 0 < n → X.ComT_BT_pairing_sum E [] (vec n y) = panic", "gs_go [{HS}]")
spec("pairing_sum_nil_r", "ComT_BT_pairing_sum",
     "∀ (n : ℕ) (x : ℕ → Com1 E), 0 < n → X.ComT_BT_pairing_sum E (vec n x) [] = panic", "gs_go [{HS}]")
spec("lin_PPE", "ComT_BT_linear_map_PPE", "∀ z : E.GT, X.ComT_BT_linear_map_PPE E z = ok (ioT z)", "gs_comp [{HS}, ioT]")
spec("lin_MSMEG1", "ComT_BT_linear_map_MSMEG1",
     "∀ (z : E.G1) (u : List (Com1 E)) (v : ℕ → Com2 E) (g1 : E.G1) (g2 : E.G2) (gt : E.GT), X.ComT_BT_linear_map_MSMEG1 E z (CRS.mk u (vec 2 v) g1 g2 gt) = ok (pr (io1 z) (W2 v g2))",
     "gs_comp [{HS}]")
spec("lin_MSMEG2", "ComT_BT_linear_map_MSMEG2",
     "∀ (z : E.G2) (u : ℕ → Com1 E) (v : List (Com2 E)) (g1 : E.G1) (g2 : E.G2) (gt : E.GT), X.ComT_BT_linear_map_MSMEG2 E z (CRS.mk (vec 2 u) v g1 g2 gt) = ok (pr (W1 u g1) (io2 z))",
     "gs_comp [{HS}]")
spec("lin_quad", "ComT_BT_linear_map_quad",
     f"∀ (z : E.Fr) {CRSB}, X.ComT_BT_linear_map_quad E z {CRSV} = ok (z • pr (W1 u g1) (W2 v g2))",
     "gs_comp [{HS}, pr_smul_right, pr_smul_left]")

# ---- matrices (C11) ---------------------------------------------------------
for K, T, mul, cm in (('Com1', 'Com1 E', '•', True), ('Com2', 'Com2 E', '•', True), ('Fr', 'E.Fr', '*', False)):
    P = f"X.Mat_{K}_Mat_"
    F = f"Mat_{K}_Mat_"
    p = f"Mat{K}"
    A = f"(A : ℕ → ℕ → {T})"
    pos = lambda *v: " → ".join(f"0 < {x}" for x in v)
    spec(p+"_add", F+"add", f"∀ (m n : ℕ) {A} (B : ℕ → ℕ → {T}), {pos('m','n')} → {P}add E (mat m n A) (mat m n B) = ok (mat m n fun i j => A i j + B i j)", DEF)
    spec(p+"_add_mis", F+"add", f"∀ (m m' n n' : ℕ) {A} (B : ℕ → ℕ → {T}), 0 < m → 0 < m' → (m ≠ m' ∨ n ≠ n') → {P}add E (mat m n A) (mat m' n' B) = panic", "gs_mis [{HS}]")
    spec(p+"_add_nil_l", F+"add", f"∀ (m n : ℕ) (B : ℕ → ℕ → {T}), 0 < m → {P}add E [] (mat m n B) = panic", DEF)
    spec(p+"_add_nil_r", F+"add", f"∀ (m n : ℕ) {A}, 0 < m → {P}add E (mat m n A) [] = panic", DEF)
    spec(p+"_neg", F+"neg", f"∀ (m n : ℕ) {A}, {pos('m','n')} → {P}neg E (mat m n A) = ok (mat m n fun i j => - A i j)", DEF)
    sm = "c • A i j" if cm else "A i j * c"
    spec(p+"_smul", F+"scalar_mul", f"∀ (m n : ℕ) {A} (c : E.Fr), {pos('m','n')} → {P}scalar_mul E (mat m n A) c = ok (mat m n fun i j => {sm})", DEF)
    spec(p+"_tr", F+"transpose", f"∀ (m n : ℕ) {A}, {pos('m','n')} → {P}transpose E (mat m n A) = ok (mat n m fun i j => A j i)", DEF)
    R = "(R : ℕ → ℕ → E.Fr)"
    rm = "R l j • A i l" if cm else "A i l * R l j"
    lm = "R i l • A l j" if cm else "R i l * A l j"
    for par, b in (('par', 'true'), ('seq', 'false')):
        spec(f"{p}_rmul_{par}", F+"right_mul", f"∀ (m n k : ℕ) {A} {R}, {pos('m','n','k')} → {P}right_mul E (mat m n A) (mat n k R) {b} = ok (mat m k fun i j => ∑ l ∈ Finset.range n, {rm})", DEF)
        spec(f"{p}_lmul_{par}", F+"left_mul", f"∀ (m n k : ℕ) {A} {R}, {pos('m','n','k')} → {P}left_mul E (mat n k A) (mat m n R) {b} = ok (mat m k fun i j => ∑ l ∈ Finset.range n, {lm})", DEF)
        spec(f"{p}_rmul_{par}_mis", F+"right_mul", f"∀ (m n n' k : ℕ) {A} {R}, {pos('m','n',chr(110)+chr(39),'k')} → n ≠ n' → {P}right_mul E (mat m n A) (mat n' k R) {b} = panic", "gs_mis [{HS}]")
        spec(f"{p}_lmul_{par}_mis", F+"left_mul", f"∀ (m n n' k : ℕ) {A} {R}, {pos('m','n',chr(110)+chr(39),'k')} → n ≠ n' → {P}left_mul E (mat n k A) (mat m n' R) {b} = panic", "gs_mis [{HS}]")
        spec(f"{p}_lmul_{par}_nil", F+"left_mul", f"∀ (m n : ℕ) {R}, {pos('m','n')} → {P}left_mul E [] (mat m n R) {b} = ok []", DEF)

# ---- commitments (C05, C06) --------------------------------------------------
for i, d in SIDES.items():
    C, G, io, W, B, uu, gen, com = (d[k] for k in ('C', 'G', 'io', 'W', 'B', 'u', 'gen', 'com'))
    spec(f"{com}_clone", f"{com}_Clone_clone", f"∀ a : {com} E, X.{com}_Clone_clone E a = ok a", DEF)
    spec(f"{com}_eq", f"{com}_PartialEq_eq", f"∀ a b : {com} E, X.{com}_PartialEq_eq E a b = ok (decide (a = b))",
         "intro a b\nobtain ⟨ac, ar⟩ := a\nobtain ⟨bc, br⟩ := b\nsimp only [{UNF}]\ngs_simp [{HS}, " + com + ".mk.injEq] <;> gs_bool " + com + ".mk.injEq")
    spec(f"{com}_append", f"{com}_Commit_append",
         f"∀ (m n : ℕ) (c c' : ℕ → {C} E) (r r' : ℕ → List E.Fr), X.{com}_Commit_append E ⟨vec m c, vec m r⟩ ⟨vec n c', vec n r'⟩ = "
         f"ok ((), ⟨vec (m + n) (fun i => if i < m then c i else c' (i - m)), vec (m + n) (fun i => if i < m then r i else r' (i - m))⟩, ⟨[], []⟩)", DEF)
    gkey = f"∀ (s : E.Rng) {CRSB}"
    val = f"{io} (x i) + (E.frAt s (2 * i) • {uu} 0 + E.frAt s (2 * i + 1) • {uu} 1)"
    val1 = f"{io} x + (E.frAt s 0 • {uu} 0 + E.frAt s 1 • {uu} 1)"
    spec(f"commit_{G}", f"commit_{G}",
         f"∀ (x : E.{G}) (s : E.Rng) {CRSB}, X.commit_{G} E x {CRSV} s = ok (⟨vec 1 fun _ => {val1}, mat 1 2 fun _ j => Env.frAt s j⟩, Env.adv s 2)".replace('E.frAt', 'Env.frAt'), "gs_com [{HS}]")
    spec(f"batch_commit_{G}", f"batch_commit_{G}",
         f"∀ (m : ℕ) (x : ℕ → E.{G}) (s : E.Rng) {CRSB}, 0 < m → X.batch_commit_{G} E (vec m x) {CRSV} s = ok (⟨vec m fun i => {val}, mat m 2 fun i j => Env.frAt s (2 * i + j)⟩, Env.adv s (2 * m))".replace('E.frAt', 'Env.frAt'), "gs_com [{HS}]")
    sval = f"x i • {W} {uu} {gen} + Env.frAt s i • {uu} 0"
    sval1 = f"x • {W} {uu} {gen} + Env.frAt s 0 • {uu} 0"
    spec(f"commit_scalar_{B}", f"commit_scalar_to_{B}",
         f"∀ (x : E.Fr) (s : E.Rng) {CRSB}, X.commit_scalar_to_{B} E x {CRSV} s = ok (⟨vec 1 fun _ => {sval1}, mat 1 1 fun _ _ => Env.frAt s 0⟩, Env.adv s 1)", "gs_com [{HS}]")
    spec(f"batch_commit_scalar_{B}", f"batch_commit_scalar_to_{B}",
         f"∀ (m : ℕ) (x : ℕ → E.Fr) (s : E.Rng) {CRSB}, 0 < m → X.batch_commit_scalar_to_{B} E (vec m x) {CRSV} s = ok (⟨vec m fun i => {sval}, mat m 1 fun i _ => Env.frAt s i⟩, Env.adv s m)", "gs_com [{HS}]")

# ---- CRS (C07) ----------------------------------------------------------------
spec("crs_clone", "CRS_Clone_clone", "∀ a : CRS E, X.CRS_Clone_clone E a = ok a", DEF)
spec("crs_bind_key", "CRS_prepare_real_binding_key",
     "∀ (g1 : E.G1) (g2 : E.G2) (q1 : E.G1) (t1 : E.Fr) (q2 : E.G2) (t2 : E.Fr), X.CRS_prepare_real_binding_key E g1 g2 q1 t1 q2 t2 = ok (t1 • q1, t2 • q2)",
     "gs_go [{HS}, sub_zero, add_zero]")
spec("crs_hide_key", "CRS_prepare_simulated_hinding_key",
     "∀ (g1 : E.G1) (g2 : E.G2) (q1 : E.G1) (t1 : E.Fr) (q2 : E.G2) (t2 : E.Fr), X.CRS_prepare_simulated_hinding_key E g1 g2 q1 t1 q2 t2 = ok (t1 • q1 - g1, t2 • q2 - g2)",
     "gs_go [{HS}, sub_zero, add_zero]")
spec("crs_gen", "CRS_AbstractCrs_generate_crs",
     "∀ s : E.Rng, ∃ (p1 : E.G1) (p2 : E.G2) (a1 a2 t1 t2 : E.Fr) (s' : E.Rng), Draws s [.g1 p1, .g2 p2, .fr a1, .fr a2, .fr t1, .fr t2] s' ∧ X.CRS_AbstractCrs_generate_crs E s = ok (mkCrs p1 p2 a1 a2 t1 t2, s')",
     "intro s\nsimp only [{UNF}]\ngs_crs [{HS}]")

# ---- equations ----------------------------------------------------------------
EQS = {
    'PPE': dict(x=1, y=1, ty='PairingProduct'),
    'MSMEG1': dict(x=1, y=0, ty='MultiScalarG1'),
    'MSMEG2': dict(x=0, y=1, ty='MultiScalarG2'),
    'QuadEqu': dict(x=0, y=0, ty='Quadratic'),
}
for Q, d in EQS.items():
    gx, gy = d['x'], d['y']
    XT = 'E.G1' if gx else 'E.Fr'
    YT = 'E.G2' if gy else 'E.Fr'
    AT = 'E.G1' if gx else 'E.Fr'      # constants paired with the Y variables
    BT = 'E.G2' if gy else 'E.Fr'
    TT = {'PPE': 'E.GT', 'MSMEG1': 'E.G1', 'MSMEG2': 'E.G2', 'QuadEqu': 'E.Fr'}[Q]
    p, q = (2 if gx else 1), (2 if gy else 1)
    ix = (lambda t: f"io1 ({t})") if gx else (lambda t: f"({t}) • W1 u g1")
    iy = (lambda t: f"io2 ({t})") if gy else (lambda t: f"({t}) • W2 v g2")
    tgt = {'PPE': 'ioT t', 'MSMEG1': 'pr (io1 t) (W2 v g2)', 'MSMEG2': 'pr (W1 u g1) (io2 t)',
           'QuadEqu': 't • pr (W1 u g1) (W2 v g2)'}[Q]
    d.update(XT=XT, YT=YT, AT=AT, BT=BT, TT=TT, p=p, q=q, ix=ix, iy=iy, tgt=tgt)
    spec(f"{Q}_type", f"{Q}_Equation_get_type", f"∀ q : {Q} E, X.{Q}_Equation_get_type E q = ok EquType.{d['ty']}", DEF)
    eqn = f"({Q}.mk (vec n a) (vec m b) (mat m n Γ) t)"
    eqb = f"(m n : ℕ) (a : ℕ → {AT}) (b : ℕ → {BT}) (Γ : ℕ → ℕ → E.Fr) (t : {TT})"
    d.update(eqn=eqn, eqb=eqb)
    cb = "(c : ℕ → Com1 E) (d : ℕ → Com2 E) (R S T : List (List E.Fr)) (π : ℕ → Com2 E) (θ : ℕ → Com1 E)"
    lhs = f"(∑ j ∈ Finset.range n, pr ({ix('a j')}) (d j)) + (∑ i ∈ Finset.range m, pr (c i) ({iy('b i')})) + ∑ i ∈ Finset.range m, pr (c i) (∑ j ∈ Finset.range n, Γ i j • d j)"
    rhs = f"{tgt} + (∑ k ∈ Finset.range {p}, pr (u k) (π k)) + ∑ l ∈ Finset.range {q}, pr (θ l) (v l)"
    # scalar sides use the first proof element only; more may be present
    np, nt = ('2' if gx else 'np'), ('2' if gy else 'nt')
    extra_b = (' (np : ℕ)' if not gx else '') + (' (nt : ℕ)' if not gy else '')
    extra_h = ('0 < np → ' if not gx else '') + ('0 < nt → ' if not gy else '')
    spec(f"{Q}_verify", f"{Q}_Verifiable_verify",
         f"∀ {eqb} {cb}{extra_b} {CRSB}, 0 < m → 0 < n → {extra_h}X.{Q}_Verifiable_verify E {eqn} "
         f"(CProof.mk ⟨vec m c, R⟩ ⟨vec n d, S⟩ [EquProof.mk (vec {np} π) (vec {nt} θ) EquType.{d['ty']} T]) {CRSV} = ok (decide ({lhs} = {rhs}))",
         "gs_ver [{HS}]")
    # refusals
    spec(f"{Q}_verify_count", f"{Q}_Verifiable_verify",
         f"∀ (q : {Q} E) (x : Commit1 E) (y : Commit2 E) (l : List (EquProof E)) (key : CRS E), l.length ≠ 1 → X.{Q}_Verifiable_verify E q (CProof.mk x y l) key ≠ ok true",
         "gs_refuse [{HS}]")
    spec(f"{Q}_verify_type", f"{Q}_Verifiable_verify",
         f"∀ (q : {Q} E) (x : Commit1 E) (y : Commit2 E) (l : List (EquProof E)) (π : List (Com2 E)) (θ : List (Com1 E)) (ty : EquType) (T : List (List E.Fr)) (key : CRS E), ty ≠ EquType.{d['ty']} → X.{Q}_Verifiable_verify E q (CProof.mk x y (EquProof.mk π θ ty T :: l)) key ≠ ok true",
         "intro q x y l π θ ty T key hty\nsimp only [{UNF}]\ngs_simp [{HS}, idxR_cons_zero]\ngs_refuse_type ty hty [{HS}, idxR_cons_zero]")
    spec(f"{Q}_verify_dims", f"{Q}_Verifiable_verify",
         f"∀ {eqb} (m' n' np nt : ℕ) {cb} (ty : EquType) {CRSB}, 0 < m → 0 < n → ¬ (m' = m ∧ n' = n ∧ {'np = 2' if gx else '0 < np'} ∧ {'nt = 2' if gy else '0 < nt'}) → X.{Q}_Verifiable_verify E {eqn} "
         f"(CProof.mk ⟨vec m' c, R⟩ ⟨vec n' d, S⟩ [EquProof.mk (vec np π) (vec nt θ) ty T]) {CRSV} ≠ ok true",
         f"intro m n a b Γ t m' n' np nt c d R S T π θ ty u v g1 g2 gt hm hn hne\nsimp only [{{UNF}}]\ngs_dims m n m' n' np nt {2 if gx else 1} {2 if gy else 1} [{{HS}}]")
    # prover
    pi = f"fun k => (∑ i ∈ Finset.range m, R i k • {iy('b i')}) + (∑ j ∈ Finset.range n, (∑ i ∈ Finset.range m, R i k * Γ i j) • {iy('y j')}) + ∑ l ∈ Finset.range {q}, ((∑ j ∈ Finset.range n, (∑ i ∈ Finset.range m, R i k * Γ i j) * S j l) - T l k) • v l"
    th = f"fun l => (∑ j ∈ Finset.range n, S j l • {ix('a j')}) + (∑ i ∈ Finset.range m, (∑ j ∈ Finset.range n, S j l * Γ i j) • {ix('x i')}) + ∑ k ∈ Finset.range {p}, T l k • u k"
    wb = f"(x : ℕ → {XT}) (y : ℕ → {YT}) (c : List (Com1 E)) (d : List (Com2 E)) (R S : ℕ → ℕ → E.Fr) (s : E.Rng)"
    d.update(pi=pi, th=th, wb=wb)
    spec(f"{Q}_prove", f"{Q}_Provable_prove",
         f"∃ σ : ℕ → ℕ → ℕ, Places {q} {p} σ ∧ ∀ {eqb} {wb} {CRSB}, 0 < m → 0 < n → ∀ T : ℕ → ℕ → E.Fr, (T = fun i j => Env.frAt s (σ i j)) → X.{Q}_Provable_prove E {eqn} (vec m x) (vec n y) ⟨c, mat m {p} R⟩ ⟨d, mat n {q} S⟩ {CRSV} s = "
         f"ok (EquProof.mk (vec {p} ({pi})) (vec {q} ({th})) EquType.{d['ty']} (mat {q} {p} T), Env.adv s {p*q})",
         f"gs_prove {q} {p} [{{HS}}]")
    spec(f"{Q}_prove_mis", f"{Q}_Provable_prove",
         f"∀ (m n na mb mx ny mr nr p q : ℕ) (a : ℕ → {AT}) (b : ℕ → {BT}) (Γ : ℕ → ℕ → E.Fr) (t : {TT}) {wb} {CRSB}, 0 < m → 0 < n → ¬ (na = n ∧ mb = m ∧ mx = m ∧ ny = n ∧ mr = m ∧ nr = n ∧ p = {p} ∧ q = {q}) → "
         f"X.{Q}_Provable_prove E ({Q}.mk (vec na a) (vec mb b) (mat m n Γ) t) (vec mx x) (vec ny y) ⟨c, mat mr p R⟩ ⟨d, mat nr q S⟩ {CRSV} s = panic",
         f"intro m n na mb mx ny mr nr p q a b Γ t x y c d R S s u v g1 g2 gt hm hn hne\nsimp only [{{UNF}}]\ngs_provemis {p} {q} m n na mb mx ny mr nr p q hm hn hne [{{HS}}]")
    cx = 'batch_commit_G1' if gx else 'batch_commit_scalar_to_B1'
    cy = 'batch_commit_G2' if gy else 'batch_commit_scalar_to_B2'
    spec(f"{Q}_cap", [f"{Q}_Provable_commit_and_prove", cx, cy, f"{Q}_Provable_prove"],
         f"∀ (q : {Q} E) (xs : List {XT}) (ys : List {YT}) (key : CRS E) (s : E.Rng), X.{Q}_Provable_commit_and_prove E q xs ys key s = "
         f"bind (X.{cx} E xs key s) fun X => bind (X.{cy} E ys key X.2) fun Y => bind (X.{Q}_Provable_prove E q xs ys X.1 Y.1 key Y.2) fun P => ok (CProof.mk X.1 Y.1 [P.1], P.2)".replace('fun X =>', 'fun cx =>').replace('key X.2', 'key cx.2').replace('xs ys X.1', 'xs ys cx.1').replace('mk X.1', 'mk cx.1'),
         "gs_simp [{HS}]")

# ---- serialization (C13) -------------------------------------------------------
SER = 'CanonicalSerialize_serialize_with_mode'
SIZ = 'CanonicalSerialize_serialized_size'
DES = 'CanonicalDeserialize_deserialize_with_mode'
def rt(T):
    ty = T if T == 'EquType' else f"{T} E"
    return (f"RT (α := {ty}) {'(fun _ => True)' if T in ('Com1', 'Com2') else T + '.Fits'} (enc c) (fun x w => X.{T}_{SER} E x w c) (fun r => X.{T}_{DES} E r c v) (fun x => X.{T}_{SIZ} E x c)")
for T in ('Com1', 'Com2', 'EquType', 'CRS', 'Commit1', 'Commit2', 'EquProof', 'PPE', 'MSMEG1', 'MSMEG2', 'QuadEqu'):
    ty = T if T == 'EquType' else f"{T} E"
    spec(f"{T}_check", f"{T}_Valid_check", f"∀ x : {ty}, X.{T}_Valid_check E x = ok (Except.ok ())", "gs_simp [{HS}]")
    if T == 'EquType':
        cs = "intro x; intros; cases x <;> simp only [{UNF}] <;> gs_simp [{HS}, EquType.idx, dePrim, decU8, encU8, List.cons_append] <;> rfl"
        spec("EquType_enc", "EquType_"+SER, f"∀ (x : EquType) (w : Bytes) (c : Compress), X.EquType_{SER} E x w c = ok (Except.ok (), w ++ encU8 x.idx)", cs)
        spec("EquType_size", "EquType_"+SIZ, f"∀ (x : EquType) (c : Compress), X.EquType_{SIZ} E x c = ok 1", cs)
        spec("EquType_dec", "EquType_"+DES, f"∀ (x : EquType) (r : Bytes) (c : Compress) (v : Validate), X.EquType_{DES} E (encU8 x.idx ++ r) c v = ok (Except.ok x, r)", cs)
        spec("EquType_dec_bad", "EquType_"+DES, f"∀ (b : ℕ) (r : Bytes) (c : Compress) (v : Validate), 3 < b → ∃ e r', X.EquType_{DES} E (b :: r) c v = ok (Except.error e, r')",
             "intro b r c v hb\nsimp only [{UNF}]\nobtain ⟨k, rfl⟩ : ∃ k, b = k + 4 := ⟨b - 4, by omega⟩\ngs_simp [{HS}, dePrim, decU8]\nexact ⟨_, _, rfl⟩")
        spec("EquType_dec_nil", "EquType_"+DES, f"∀ (c : Compress) (v : Validate), ∃ e r', X.EquType_{DES} E [] c v = ok (Except.error e, r')",
             "intro c v\nsimp only [{UNF}]\ngs_simp [{HS}, dePrim, decU8]\nexact ⟨_, _, rfl⟩")
        continue
    spec(f"{T}_valid", f"{T}_Valid_batch_check", f"∀ l : List ({ty}), X.{T}_Valid_batch_check E l = ok (Except.ok ())", "gs_simp [{HS}]")
    spec(f"{T}_rt", [f"{T}_{SER}", f"{T}_{DES}", f"{T}_{SIZ}"], f"∃ enc : Compress → {ty} → Bytes, ∀ c v, {rt(T)}",
         f"gs_ser {T}.Fits [{{HS}}] [{{UNF}}]", roots=3)
# ---- copies and equality of the remaining types (C13: what "equal object" means) -------------
for T in ('EquType', 'EquProof', 'CProof', 'PPE', 'MSMEG1', 'MSMEG2', 'QuadEqu'):
    ty = T if T == 'EquType' else f"{T} E"
    spec(f"{T}_clone", f"{T}_Clone_clone", f"∀ a : {ty}, X.{T}_Clone_clone E a = ok a",
         "intro a\nobtain ⟨⟩ := a <;> simp only [{UNF}] <;> gs_simp [{HS}]")
    if T == 'EquType':
        pf = "intro a b\nsimp only [{UNF}]\ncases a <;> cases b <;> gs_simp [{HS}, EquType.idx] <;> rfl"
    elif T == 'CProof':
        pf = "intro a b\nobtain ⟨⟩ := a\nobtain ⟨⟩ := b\nsimp only [{UNF}]\ngs_simp [{HS}, CProof.mk.injEq] <;> gs_bool CProof.mk.injEq"
    else:
        pf = f"intro a b\nobtain ⟨⟩ := a\nobtain ⟨⟩ := b\nsimp only [{{UNF}}]\ngs_simp [{{HS}}, {T}.mk.injEq] <;> gs_bool {T}.mk.injEq"
    spec(f"{T}_eq", f"{T}_PartialEq_eq", f"∀ a b : {ty}, X.{T}_PartialEq_eq E a b = ok (decide (a = b))", pf)
