import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=mech,where=", ".join(files))]))
    if state: d["anchors"]["state"]=state
    P.append(d)
DS="src/data_structures.rs";GE="src/generator.rs";CO="src/prover/commit.rs";PR="src/prover/prove.rs";VE="src/verifier.rs";ST="src/statement.rs"
p("C01","Honest proofs always verify (completeness)",
 "For each of the four equation types, if the witness variables satisfy the equation, then the proof obtained by committing to them and proving (in one step, or with commitments made earlier by any of the commit functions and shared between equations) is accepted by verification of that equation under the same CRS. This holds for every number of variables of each kind (at least one), every choice of public constants, every pairing-exponent matrix, every satisfying witness (zero and repeated values included), every well-formed commitment key, binding or hiding, and every randomness.",
 ["inputs","configurations"],"all dimensions m,n >= 1, all constants/exponents/witnesses/targets with a satisfied equation, all CRSs with two key elements per side, all RNG outputs, all four equation types",
 "Each type is tested on one fixed 2x1 instance with one fixed RNG seed, with the second row of the exponent matrix zero; nothing varies the dimensions, the key or the values.",
 [PR,VE,CO,DS],"commit_and_prove/prove build (pi, theta) from matrix products; verify compares two sums of pairings in BT")
p("C02","Accepted proofs are sound under a binding CRS",
 "Under a CRS whose keys are binding (as generated), whenever verification of an equation of any of the four types accepts, the values uniquely determined by the committed X and Y (the decryptions of the commitments under the key's trapdoor) satisfy that equation. No choice of commitments and proof elements, however produced, makes verification accept otherwise.",
 ["inputs"],"all adversarially chosen commitments and proof elements, all equations, all binding CRSs with non-zero generators",
 "Tests only ever verify honest proofs of true statements; no test presents a false statement or a tampered proof, and a forged proof cannot be sampled.",
 [VE,DS,GE,CO],"the verifier's equation in BT projects to the original equation because the projection kills every term that involves the keys")
p("C03","Proofs are perfectly witness-indistinguishable under a hiding CRS",
 "Under a CRS with hiding keys, for any two witnesses satisfying the same equation, the commitments and proof elements produced from them have exactly the same distribution: every transcript arises from each witness for exactly one choice of the randomness. The randomness consists of independent fresh draws from the caller's random source: one per key element for each committed variable and one per entry of the proof's randomising matrix (2x2, 1x2, 2x1 or 1x1 depending on the equation type), none of them reused or fixed.",
 ["inputs","configurations"],"all pairs of satisfying witnesses, all equations of the four types, all dimensions m,n >= 1, all hiding CRSs, all transcripts",
 "A statement about distributions over all randomness; tests run one seed and never build a hiding key, and a proof with weakened randomness still verifies.",
 [CO,PR,GE],"c := i(x) + Ru, d := i(y) + Sv, pi and theta randomised by T")
p("C04","Verification decides exactly the Groth-Sahai verification equation",
 "For well-shaped inputs, verification returns true if and only if the sum of the pairings of the embedded A constants with the Y commitments, of the X commitments with the embedded B constants, and of the X commitments with the exponent-weighted Y commitments equals the embedded target plus the pairings of the keys with the proof elements, in all four components of BT. The embeddings and the number of proof elements are those of the equation's type, and every term counts.",
 ["inputs"],"all equations, proofs, commitments (honest or not), CRSs and dimensions m,n >= 1",
 "Tests check that verification says true on four honest instances; they never require it to say false, nor see a single component differ.",
 [VE,DS],"verify: lhs/rhs sums in BT compared with ==")
p("C05","Commitments are well-formed, record their randomness, and bind",
 "Committing a value yields its embedding plus the linear combination of the key elements (two for group elements, the first only for scalars) whose coefficients are exactly the fresh random draws kept as that commitment's randomness, one row per value, in order. Under a binding key the committed value is recovered uniquely from the commitment alone: a group element itself, or a scalar times the generator.",
 ["inputs"],"all committed values (zero included), all list lengths >= 1, all keys, all RNG outputs, both sides and both kinds of value",
 "Tests compare batch against single commitments for three small values under one seed, never against the definition, and never open a commitment.",
 [CO,DS,GE],"commit_*, batch_commit_* and the linear maps into B1/B2")
p("C06","Batch commitments equal the individual ones; append concatenates",
 "Committing a non-empty list in one batch gives exactly the commitments, randomness and consumption of the random source that committing its elements one by one in order and appending the results gives. Appending puts the second list's commitments and their randomness after the first's, pairwise aligned and in order, and leaves the second list empty.",
 ["inputs","histories"],"all non-empty lists of any length, all keys, all RNG states, all sequences of commits and appends, all four kinds of commitment",
 "Tests do this for one list of length three and append single-element lists only.",
 [CO],"batch_commit_*, commit_*, Commit::append")
p("C07","CRS generation yields consistent binding keys",
 "A generated CRS has two key elements on each side: the first is the generator with a scalar multiple a of it, the second is a multiple t of the first (so the key is binding), with the generators, a1, a2, t1, t2 all independent fresh draws from the random source. The published generators are the first components of the first key elements and the target generator is the pairing of the two. The hiding variant of the second key element differs from the binding one only by subtracting the generator from its second component.",
 ["inputs"],"all RNG outputs, all pairing-friendly curves",
 "Tests generate a CRS from one seed and compare the second components with the code's own intermediate function; they never check the linear relations between the key elements.",
 [GE],"generate_crs, prepare_real_binding_key, prepare_simulated_hinding_key")
p("C08","Commitment groups are modules with component-wise laws",
 "Addition, subtraction, negation, their assigning forms, zero, equality and iterator sums on B1, B2 and BT act component-wise on every component and form an abelian group; scalar multiplication on B1 and B2 multiplies every component by the scalar and makes them modules over the scalar field. Equality holds exactly when all components are equal.",
 ["inputs"],"all elements (identity included), all scalars (zero included), all sequences summed",
 "Tests check each operation on one random sample; mixed cases (a zero component, equal operands, inverse operands, empty sums) are not reached and the assigning forms are not called.",
 [DS],"operator impls for Com1, Com2, ComT")
p("C09","The commitment-group pairing is bilinear and sums exactly",
 "The pairing of B1 and B2 into BT is the 2x2 matrix of pairings of the components in row-major order, is linear in each argument, and vanishes only as the underlying pairing forces it to. The pairing of two equally long lists equals the sum of the pairings of corresponding elements, the empty lists giving zero, and lists of different length are refused rather than truncated.",
 ["inputs"],"all pairs of elements, all scalars, all list lengths",
 "Tests check one random pair, pairs with zero, and one two-element sum; linearity and unequal lengths are not exercised.",
 [DS],"BT::pairing and BT::pairing_sum for ComT")
p("C10","Embeddings are homomorphic and commute with the pairing",
 "Each embedding (of G1, G2 and scalars into B1 or B2, and of each equation type's target into BT) is additive, and pairing the embeddings of two values equals embedding their product: e(x,y) for pairing products, the scalar multiple for multi-scalar equations, the field product for quadratic ones. The batch forms embed each element at its position, and the embeddings of group elements are injective.",
 ["inputs"],"all values, all keys, all list lengths, all four equation types",
 "Commutativity is tested on one random sample per type under one key; batch forms on short lists.",
 [DS],"linear_map, scalar_linear_map, batch_*, linear_map_PPE/MSMEG1/MSMEG2/quad")
p("C11","Matrix arithmetic is exact and independent of parallelism",
 "For rectangular non-empty matrices over B1, B2 or the scalar field with compatible dimensions, addition, negation, scalar multiplication, transposition and left and right multiplication by scalar matrices give the mathematical result with the right dimensions and in the right entry order. The parallel and the sequential evaluation give the same result under every scheduling, and incompatible inner dimensions are refused.",
 ["inputs","schedules"],"all dimensions >= 1, all entries, both values of the parallel flag, all schedules of the parallel iterators",
 "Tests use fixed matrices up to 3x3 with small integers; larger or non-square shapes, and agreement of the two modes on arbitrary input, are not covered.",
 [DS],"impl Mat for Matrix<Com1>, Matrix<Com2>, Matrix<F>")
p("C12","Vector, matrix and element conversions are lossless",
 "Turning a list into a column vector and back gives the same list for every length, and the column of a one-column matrix is read in row order; a single row is read as that row. Converting an element of B1, B2 or BT to a vector or matrix and back gives the same element, with components in row-major order, and conversion from a matrix of any other shape is refused.",
 ["inputs"],"all list lengths (zero and one included), all elements, all matrix shapes",
 "Tests use three-element vectors and one element per group; length one, where rows and columns coincide, and wrong shapes are not tested.",
 [DS],"col_vec_to_vec, vec_to_col_vec, as_vec, as_col_vec, as_matrix, From<Matrix>")
p("C13","Serialized objects decode to themselves",
 "For the CRS, the four kinds of equation, commitment-group elements, commitments and equation proofs, decoding an encoding (compressed or not, whatever bytes follow it) gives back an equal object and consumes exactly the bytes written, whose number is what the object announces as its serialized size. The equation type is encoded as one byte, 0, 1, 2, 3 for pairing product, multi-scalar in G1, multi-scalar in G2 and quadratic, in both modes, and every other byte or a missing byte is rejected.",
 ["inputs"],"all objects, all list lengths, both compression modes, all trailing bytes, all 256 tag bytes",
 "Tests round-trip one object per type with nothing after it; no malformed tag is tried and order of fields against trailing data is not observed.",
 [ST,DS,GE,CO,PR],"derived and hand-written CanonicalSerialize/CanonicalDeserialize impls")
p("C14","Mismatched proofs and inputs are refused, never accepted",
 "Verification of a well-formed equation never reports success for a proof whose declared equation type is not the equation's, that does not hold exactly one equation proof, that has too few proof elements for its type, or whose commitments do not match the equation in number. The prover yields no proof when the numbers of witness values, the rows or columns of the commitment randomness, the numbers of public constants and the dimensions of the exponent matrix disagree.",
 ["inputs"],"all equations and all proofs, honest or not, with any list lengths and any declared type",
 "No test passes a mismatched type, count or dimension to the prover or the verifier.",
 [VE,PR,DS],"assertions at the head of verify/prove, length checks in pairing_sum and matrix products")
p("C15","Commit-and-prove is exactly commit, commit, prove",
 "For every equation type, proving in one step commits to the X variables, then to the Y variables, with the commitment kind the equation type prescribes, then proves with those very commitments, using the random source in that order; the result carries those commitments unchanged and exactly one proof. That proof bears the equation's type, has two B2 elements if the X variables are group elements and one if they are scalars, and likewise two or one B1 elements for the Y variables.",
 ["inputs","configurations"],"all four types, all dimensions >= 1, all witnesses, constants, keys and RNG states",
 "Tests compare the two ways for one 2x1 instance and seed per type.",
 [PR,CO],"Provable::commit_and_prove, Provable::prove, Equation::get_type")
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
