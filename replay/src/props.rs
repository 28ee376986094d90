use crate::gen::{Eqn, Gen};
use crate::util::*;
use ark_ec::pairing::Pairing;
use ark_ec::CurveGroup;
use ark_ff::{Field, One, UniformRand, Zero};
use ark_serialize::*;
use groth_sahai::data_structures::*;
use groth_sahai::prover::*;
use groth_sahai::statement::*;
use groth_sahai::verifier::Verifiable;
use groth_sahai::{AbstractCrs, CRS};

/// what a run remembers between cases
#[derive(Default)]
pub struct State {
    dummy: Option<EquProof<E>>,
    perms: std::collections::BTreeMap<usize, Vec<Vec<usize>>>,
    orders: Option<Vec<Vec<usize>>>,
}

macro_rules! with_eq {
    ($e:expr, $q:ident, $x:ident, $y:ident, $xs:expr, $ys:expr, $body:expr) => {{
        let e: &Eqn = $e;
        let g1 = |l: &[Fr]| -> Vec<A1> { l.iter().map(|k| p1(*k)).collect() };
        let g2 = |l: &[Fr]| -> Vec<A2> { l.iter().map(|k| p2(*k)).collect() };
        let gamma = e.gam.clone();
        match e.ty {
            0 => {
                let $q = PPE::<E> { a_consts: g1(&e.a), b_consts: g2(&e.b), gamma, target: gt(e.t) };
                let ($x, $y) = (g1($xs), g2($ys));
                $body
            }
            1 => {
                let $q = MSMEG1::<E> { a_consts: g1(&e.a), b_consts: e.b.clone(), gamma, target: p1(e.t) };
                let ($x, $y) = (g1($xs), $ys.to_vec());
                $body
            }
            2 => {
                let $q = MSMEG2::<E> { a_consts: e.a.clone(), b_consts: g2(&e.b), gamma, target: p2(e.t) };
                let ($x, $y) = ($xs.to_vec(), g2($ys));
                $body
            }
            _ => {
                let $q = QuadEqu::<E> { a_consts: e.a.clone(), b_consts: e.b.clone(), gamma, target: e.t };
                let ($x, $y) = ($xs.to_vec(), $ys.to_vec());
                $body
            }
        }
    }};
}
fn verify(e: &Eqn, p: &CProof<E>, crs: &CRS<E>) -> bool {
    with_eq!(e, q, _x, _y, &[] as &[Fr], &[] as &[Fr], q.verify(p, crs))
}
fn prove(e: &Eqn, x: &[Fr], y: &[Fr], c: &Commit1<E>, d: &Commit2<E>, crs: &CRS<E>, r: &mut Rg) -> EquProof<E> {
    with_eq!(e, q, xs, ys, x, y, q.prove(&xs, &ys, c, d, crs, r))
}
fn cap(e: &Eqn, x: &[Fr], y: &[Fr], crs: &CRS<E>, r: &mut Rg) -> CProof<E> {
    with_eq!(e, q, xs, ys, x, y, q.commit_and_prove(&xs, &ys, crs, r))
}
fn ety(e: &Eqn) -> EquType {
    [EquType::PairingProduct, EquType::MultiScalarG1, EquType::MultiScalarG2, EquType::Quadratic][e.ty].clone()
}
fn bc1(grp: bool, x: &[Fr], crs: &CRS<E>, r: &mut Rg) -> Commit1<E> {
    if grp {
        batch_commit_G1(&x.iter().map(|k| p1(*k)).collect::<Vec<_>>(), crs, r)
    } else {
        batch_commit_scalar_to_B1(x, crs, r)
    }
}
fn bc2(grp: bool, x: &[Fr], crs: &CRS<E>, r: &mut Rg) -> Commit2<E> {
    if grp {
        batch_commit_G2(&x.iter().map(|k| p2(*k)).collect::<Vec<_>>(), crs, r)
    } else {
        batch_commit_scalar_to_B2(x, crs, r)
    }
}
fn sc1(grp: bool, x: Fr, crs: &CRS<E>, r: &mut Rg) -> Commit1<E> {
    if grp { commit_G1(&p1(x), crs, r) } else { commit_scalar_to_B1(&x, crs, r) }
}
fn sc2(grp: bool, x: Fr, crs: &CRS<E>, r: &mut Rg) -> Commit2<E> {
    if grp { commit_G2(&p2(x), crs, r) } else { commit_scalar_to_B2(&x, crs, r) }
}
/// commits with a random choice among the ways the crate offers
fn any1(g: &mut Gen, grp: bool, x: &[Fr], crs: &CRS<E>, r: &mut Rg) -> Commit1<E> {
    if g.one_in(2) {
        return bc1(grp, x, crs, r);
    }
    let k = 1 + g.below(x.len());
    let mut c = if k == 1 { sc1(grp, x[0], crs, r) } else { bc1(grp, &x[..k], crs, r) };
    for v in &x[k..] {
        c.append(&mut sc1(grp, *v, crs, r));
    }
    c
}
fn any2(g: &mut Gen, grp: bool, x: &[Fr], crs: &CRS<E>, r: &mut Rg) -> Commit2<E> {
    if g.one_in(2) {
        return bc2(grp, x, crs, r);
    }
    let k = 1 + g.below(x.len());
    let mut c = if k == 1 { sc2(grp, x[0], crs, r) } else { bc2(grp, &x[..k], crs, r) };
    for v in &x[k..] {
        c.append(&mut sc2(grp, *v, crs, r));
    }
    c
}
fn draw(r: &mut Rg, m: usize, p: usize) -> M {
    (0..m).map(|_| (0..p).map(|_| Fr::rand(r)).collect()).collect()
}
fn show(v: &[Fr]) -> String {
    let l: Vec<String> = v.iter().take(6).map(|x| {
        let s = x.to_string();
        let n = (-*x).to_string();
        if s.len() > 24 && n.len() <= 24 { format!("-{n}") } else { s }
    }).collect();
    format!("[{}{}]", l.join(" "), if v.len() > 6 { " .." } else { "" })
}
fn tell_eq(g: &mut Gen, e: &Eqn, x: &[Fr], y: &[Fr]) {
    let s = format!("a={} b={} x={} y={} t={} gamma={}", show(&e.a), show(&e.b), show(x), show(y), show(&[e.t]),
        e.gam.iter().take(6).map(|r| show(r)).collect::<Vec<_>>().join(""));
    g.tell(s);
}
/// a commitment with chosen elements; its recorded randomness does not matter
fn raw1(c: &[V2], crs: &CRS<E>) -> Commit1<E> {
    let mut r = Rg::new(1, 1);
    let mut k = bc1(true, &vec![Fr::one(); c.len().max(1)], crs, &mut r);
    k.coms = c.iter().map(|x| com1(*x)).collect();
    k
}
fn raw2(c: &[V2], crs: &CRS<E>) -> Commit2<E> {
    let mut r = Rg::new(1, 1);
    let mut k = bc2(true, &vec![Fr::one(); c.len().max(1)], crs, &mut r);
    k.coms = c.iter().map(|x| com2(*x)).collect();
    k
}
fn raw_proof(st: &mut State, e: &Eqn, pi: &[V2], th: &[V2]) -> EquProof<E> {
    if st.dummy.is_none() {
        let made = quiet(|| {
            let mut r = Rg::new(3, 3);
            let crs = CRS::<E>::generate_crs(&mut r);
            let o = Fr::one();
            let e = Eqn { ty: 0, a: vec![o], b: vec![o], gam: vec![vec![o]], t: o };
            cap(&e, &[o], &[o], &crs, &mut r).equ_proofs[0].clone()
        });
        st.dummy = made.or_else(|| {
            let mut b = vec![];
            (Vec::<Com2<E>>::new(), Vec::<Com1<E>>::new()).serialize_compressed(&mut b).unwrap();
            b.push(0);
            M::new().serialize_compressed(&mut b).unwrap();
            EquProof::deserialize_compressed(&b[..]).ok()
        });
    }
    let mut p = st.dummy.clone().expect("no proof object to be had");
    p.pi = pi.iter().map(|x| com2(*x)).collect();
    p.theta = th.iter().map(|x| com1(*x)).collect();
    p.equ_type = ety(e);
    p
}
fn all_perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut o = vec![];
    for p in all_perms(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            o.push(q);
        }
    }
    o
}

// C01 ------------------------------------------------------------------------------------------
fn c01(g: &mut Gen, _st: &mut State) -> Res {
    let key = g.key();
    let crs = if g.one_in(4) {
        g.tell("generated CRS".into());
        CRS::<E>::generate_crs(&mut g.r)
    } else {
        key.crs()
    };
    let (e, x, y) = g.eqn(12);
    tell_eq(g, &e, &x, &y);
    let mut r = g.rng();
    if g.one_in(2) {
        g.tell("commit_and_prove".into());
        let p = cap(&e, &x, &y, &crs, &mut r);
        return ck(verify(&e, &p, &crs), || "honest proof rejected".into());
    }
    g.tell("shared commitments".into());
    let (c, d) = if g.one_in(2) {
        let c = any1(g, e.gx(), &x, &crs, &mut r);
        (c, any2(g, e.gy(), &y, &crs, &mut r))
    } else {
        let d = any2(g, e.gy(), &y, &crs, &mut r);
        (any1(g, e.gx(), &x, &crs, &mut r), d)
    };
    let rounds = 1 + g.below(2);
    for k in 0..rounds {
        let e = if k == 0 {
            e.clone()
        } else {
            let mut f = Eqn { a: g.frs(e.n()), b: g.frs(e.m()), gam: g.mat(e.m(), e.n()), ..e.clone() };
            f.t = f.value(&x, &y);
            f
        };
        let pf = prove(&e, &x, &y, &c, &d, &crs, &mut r);
        let p = CProof { xcoms: c.clone(), ycoms: d.clone(), equ_proofs: vec![pf] };
        ck(verify(&e, &p, &crs), || format!("honest proof of equation {k} over shared commitments rejected"))?;
    }
    Ok(())
}

// C02, C04 ---------------------------------------------------------------------------------------
/// solves for a change of (pi, theta, target) after which the defect is `want`
fn steer(g: &mut Gen, e: &Eqn, k: &Key, c: &[V2], d: &[V2], pi: &[V2], th: &[V2], want: [Fr; 4]) -> Option<(Eqn, Vec<V2>, Vec<V2>)> {
    let (p, q) = (pi.len(), th.len());
    let use_t = g.one_in(2);
    let nv = 2 * p + 2 * q + use_t as usize;
    let build = |z: &[Fr]| {
        let pi2: Vec<V2> = (0..p).map(|i| add(pi[i], [z[2 * i], z[2 * i + 1]])).collect();
        let th2: Vec<V2> = (0..q).map(|i| add(th[i], [z[2 * p + 2 * i], z[2 * p + 2 * i + 1]])).collect();
        let mut e2 = e.clone();
        if use_t {
            e2.t += z[nv - 1];
        }
        (e2, pi2, th2)
    };
    let at = |z: &[Fr]| {
        let (e2, a, b) = build(z);
        e2.defect(k, c, d, &a, &b)
    };
    let z0 = vec![Fr::zero(); nv];
    let f0 = at(&z0);
    // augmented 4 x (nv+1) system
    let mut a: M = (0..4).map(|_| vec![Fr::zero(); nv + 1]).collect();
    let mut order: Vec<usize> = (0..nv).collect();
    for i in (1..nv).rev() {
        let j = g.below(i + 1);
        order.swap(i, j);
    }
    for (col, v) in order.iter().enumerate() {
        let mut z = z0.clone();
        z[*v] = Fr::one();
        let f = at(&z);
        for r in 0..4 {
            a[r][col] = f[r] - f0[r];
        }
    }
    for r in 0..4 {
        a[r][nv] = want[r] - f0[r];
    }
    let (mut row, mut piv) = (0, vec![]);
    for col in 0..nv {
        let Some(k) = (row..4).find(|r| !a[*r][col].is_zero()) else { continue };
        a.swap(row, k);
        let inv = a[row][col].inverse().unwrap();
        for x in a[row].iter_mut() {
            *x *= inv;
        }
        for r in 0..4 {
            if r != row {
                let f = a[r][col];
                for cc in 0..=nv {
                    let s = a[row][cc];
                    a[r][cc] -= f * s;
                }
            }
        }
        piv.push(col);
        row += 1;
        if row == 4 {
            break;
        }
    }
    if (row..4).any(|r| !a[r][nv].is_zero()) {
        return None;
    }
    let mut z = z0;
    for (r, col) in piv.iter().enumerate() {
        z[order[*col]] = a[r][nv];
    }
    Some(build(&z))
}
fn c04(g: &mut Gen, st: &mut State, sound: bool) -> Res {
    let (key, a1, a2) = if sound {
        g.binding()
    } else {
        (g.key(), Fr::zero(), Fr::zero())
    };
    let crs = key.crs();
    let (mut e, x, y) = g.eqn(8);
    let (mut c, mut d): (Vec<V2>, Vec<V2>);
    let (mut pi, mut th);
    if g.one_in(2) {
        let (R, S, T) = (g.mat(e.m(), e.p()), g.mat(e.n(), e.q()), g.mat(e.q(), e.p()));
        c = (0..e.m()).map(|i| key.c1(e.gx(), x[i], &R[i])).collect();
        d = (0..e.n()).map(|j| key.c2(e.gy(), y[j], &S[j])).collect();
        (pi, th) = e.proof(&key, &x, &y, &R, &S, &T);
        g.tell("honest".into());
    } else {
        c = (0..e.m()).map(|_| g.v2()).collect();
        d = (0..e.n()).map(|_| g.v2()).collect();
        pi = (0..e.p()).map(|_| g.v2()).collect();
        th = (0..e.q()).map(|_| g.v2()).collect();
        g.tell("forged".into());
    }
    for _ in 0..3 {
        let k = g.below(13);
        match k {
            0 => { let z = g.fr(); e.t = z; }
            1 => { let (i, s, z) = (g.below(e.m()), g.below(2), g.fr()); c[i][s] += z; }
            2 => { let (i, s, z) = (g.below(e.n()), g.below(2), g.fr()); d[i][s] += z; }
            3 => { let (i, s, z) = (g.below(e.p()), g.below(2), g.fr()); pi[i][s] += z; }
            4 => { let (i, s, z) = (g.below(e.q()), g.below(2), g.fr()); th[i][s] += z; }
            5 => { let (i, z) = (g.below(e.n()), g.fr()); e.a[i] = z; }
            6 => { let (i, z) = (g.below(e.m()), g.fr()); e.b[i] = z; }
            7 => { let (i, j, z) = (g.below(e.m()), g.below(e.n()), g.fr()); e.gam[i][j] = z; }
            8 => { let n = e.m(); c.swap(0, n - 1); }
            9 => { let n = e.n(); d.swap(0, n - 1); }
            10 => { let n = e.p(); pi.swap(0, n - 1); }
            _ => {}
        }
        if g.one_in(2) {
            break;
        }
    }
    if g.one_in(2) {
        let mut want = [Fr::zero(); 4];
        if g.one_in(4) {
            g.tell("all components made equal".into());
        } else if g.one_in(3) {
            // the two sides hold the same four values, in another order
            let mut e0 = e.clone();
            e0.t = Fr::zero();
            let lhs = e0.defect(&key, &c, &d, &vec![[Fr::zero(); 2]; pi.len()], &vec![[Fr::zero(); 2]; th.len()]);
            let mut o = [0, 1, 2, 3];
            for i in (1..4).rev() {
                let j = g.below(i + 1);
                o.swap(i, j);
            }
            for i in 0..4 {
                want[i] = lhs[i] - lhs[o[i]];
            }
            g.tell(format!("made to agree up to the order {o:?} of the components"));
        } else {
            let k = g.below(4);
            want[k] = g.nz();
            if g.one_in(3) {
                let l = g.below(4);
                want[l] = if g.one_in(2) { -want[k] } else { g.fr() };
            }
            g.tell(format!("made to differ in components {:?}", (0..4).filter(|i| !want[*i].is_zero()).collect::<Vec<_>>()));
        }
        if let Some((e2, p2, t2)) = steer(g, &e, &key, &c, &d, &pi, &th, want) {
            e = e2;
            pi = p2;
            th = t2;
        } else {
            g.tell("(not possible)".into());
        }
    }
    tell_eq(g, &e, &x, &y);
    let df = e.defect(&key, &c, &d, &pi, &th);
    let pf = raw_proof(st, &e, &pi, &th);
    let p = CProof { xcoms: raw1(&c, &crs), ycoms: raw2(&d, &crs), equ_proofs: vec![pf] };
    let got = verify(&e, &p, &crs);
    if sound {
        // what the commitments decrypt to satisfies the equation
        let dx: Vec<Fr> = c.iter().map(|c| (c[1] - a1 * c[0]) * if e.gx() { Fr::one() } else { key.g[0].inverse().unwrap() }).collect();
        let dy: Vec<Fr> = d.iter().map(|d| (d[1] - a2 * d[0]) * if e.gy() { Fr::one() } else { key.g[1].inverse().unwrap() }).collect();
        let sat = e.value(&dx, &dy) == e.t;
        return ck(!got || sat, || "a proof of a false statement verifies under a binding key".into());
    }
    let want = df.iter().all(|x| x.is_zero());
    ck(got == want, || format!("verify says {got}, the verification equation is {want} (components equal: {:?})",
        df.iter().map(|x| x.is_zero()).collect::<Vec<_>>()))
}
fn c02(g: &mut Gen, st: &mut State) -> Res {
    if g.one_in(8) {
        // a generated CRS is binding
        return c07(g, st);
    }
    c04(g, st, true)
}

// C03 ------------------------------------------------------------------------------------------
fn c03(g: &mut Gen, st: &mut State) -> Res {
    if g.one_in(10) {
        return c05(g, st);
    }
    let key = if g.one_in(5) { g.key() } else { g.hiding() };
    let crs = key.crs();
    let (e, x, y) = g.eqn(8);
    tell_eq(g, &e, &x, &y);
    let mut r = g.rng();
    let mut r2 = r.clone();
    let p = cap(&e, &x, &y, &crs, &mut r);
    let R = draw(&mut r2, e.m(), e.p());
    let S = draw(&mut r2, e.n(), e.q());
    let k = e.p() * e.q();
    let t: Vec<Fr> = (0..k).map(|_| Fr::rand(&mut r2)).collect();
    for i in 0..e.m() {
        ck(p.xcoms.coms[i] == com1(key.c1(e.gx(), x[i], &R[i])), || format!("X commitment {i} is not randomised by its fresh draws"))?;
    }
    for j in 0..e.n() {
        ck(p.ycoms.coms[j] == com2(key.c2(e.gy(), y[j], &S[j])), || format!("Y commitment {j} is not randomised by its fresh draws"))?;
    }
    ck(p.equ_proofs.len() == 1, || "not exactly one proof".into())?;
    let pf = &p.equ_proofs[0];
    let cand = st.perms.get(&e.ty).cloned().unwrap_or_else(|| all_perms(k));
    let mut ok = vec![];
    for s in &cand {
        let T: M = (0..e.q()).map(|f| (0..e.p()).map(|h| t[s[f * e.p() + h]]).collect()).collect();
        let (pi, th) = e.proof(&key, &x, &y, &R, &S, &T);
        let same = pf.pi.len() == pi.len() && pf.theta.len() == th.len()
            && pf.pi.iter().zip(&pi).all(|(a, b)| *a == com2(*b)) && pf.theta.iter().zip(&th).all(|(a, b)| *a == com1(*b));
        if same {
            ok.push(s.clone());
        }
    }
    ck(!ok.is_empty(), || "the proof is not randomised by a matrix of fresh draws".into())?;
    st.perms.insert(e.ty, ok);
    ck(r.words == r2.words || r2.words < r.words, || "fewer random draws than the matrix has entries".into())
}

// C05 ------------------------------------------------------------------------------------------
fn c05(g: &mut Gen, _st: &mut State) -> Res {
    let (key, a1, a2, binding) = if g.one_in(2) {
        let (k, a1, a2) = g.binding();
        (k, a1, a2, true)
    } else {
        (g.key(), Fr::zero(), Fr::zero(), false)
    };
    let crs = key.crs();
    let kind = g.below(8);
    let (left, grp, batch) = (kind & 1 == 0, kind & 2 == 0, kind & 4 == 0);
    let n = if batch { g.dim(70) } else { 1 };
    let x = g.frs(n);
    let mut r = g.rng();
    let mut r2 = r.clone();
    g.tell(format!("{} {} {} n={n} values={}", if batch { "batch" } else { "single" }, if grp { "group" } else { "scalar" }, if left { "B1" } else { "B2" }, show(&x)));
    let R = draw(&mut r2, n, if grp { 2 } else { 1 });
    g.tell(format!("randomness={}", R.iter().take(4).map(|r| show(r)).collect::<Vec<_>>().join("")));
    let dbg;
    if left {
        let c = if batch { bc1(grp, &x, &crs, &mut r) } else { sc1(grp, x[0], &crs, &mut r) };
        ck(c.coms.len() == n, || format!("{} commitments for {n} values", c.coms.len()))?;
        for i in 0..n {
            ck(c.coms[i] == com1(key.c1(grp, x[i], &R[i])), || format!("commitment {i} is not the embedding plus its randomness times the key"))?;
            let dec = (c.coms[i].1 - c.coms[i].0 * a1).into_affine();
            ck(!binding || dec == p1(if grp { x[i] } else { x[i] * key.g[0] }), || format!("commitment {i} does not open to the committed value"))?;
        }
        dbg = format!("{c:?}");
    } else {
        let c = if batch { bc2(grp, &x, &crs, &mut r) } else { sc2(grp, x[0], &crs, &mut r) };
        ck(c.coms.len() == n, || format!("{} commitments for {n} values", c.coms.len()))?;
        for i in 0..n {
            ck(c.coms[i] == com2(key.c2(grp, x[i], &R[i])), || format!("commitment {i} is not the embedding plus its randomness times the key"))?;
            let dec = (c.coms[i].1 - c.coms[i].0 * a2).into_affine();
            ck(!binding || dec == p2(if grp { x[i] } else { x[i] * key.g[1] }), || format!("commitment {i} does not open to the committed value"))?;
        }
        dbg = format!("{c:?}");
    }
    ck(dbg.contains(&format!("{R:?}")), || "the recorded randomness is not the randomness used".into())
}

// C06 ------------------------------------------------------------------------------------------
fn c06(g: &mut Gen, _st: &mut State) -> Res {
    let key = g.key();
    let crs = key.crs();
    let (left, grp) = (g.one_in(2), g.one_in(2));
    let n = g.dim(70);
    let x = g.frs(n);
    let mut r = g.rng();
    let mut r2 = r.clone();
    g.tell(format!("{} {} n={n} values={}", if grp { "group" } else { "scalar" }, if left { "B1" } else { "B2" }, show(&x)));
    macro_rules! go {
        ($b:ident, $s:ident) => {{
            let all = $b(grp, &x, &crs, &mut r);
            let mut c = $s(grp, x[0], &crs, &mut r2);
            for v in &x[1..] {
                c.append(&mut $s(grp, *v, &crs, &mut r2));
            }
            ck(all == c && format!("{all:?}") == format!("{c:?}"), || "batch differs from the individual commitments appended".into())?;
            ck(all.coms.len() == n, || "number of commitments".into())?;
            ck(r == r2, || "batch leaves the random source in another state".into())?;
            // append of two arbitrary lists
            let (k, l) = (g.dim(40), g.dim(40));
            let (xa, xb) = (g.frs(k), g.frs(l));
            g.tell(format!("append {k} and {l}"));
            let mut ra = r.clone();
            let (mut a, mut b) = ($b(grp, &xa, &crs, &mut ra), $b(grp, &xb, &crs, &mut ra));
            let whole = $b(grp, &[&xa[..], &xb[..]].concat(), &crs, &mut r);
            let b0 = b.clone();
            a.append(&mut b);
            ck(a == whole && format!("{a:?}") == format!("{whole:?}"), || "append does not concatenate".into())?;
            ck(b.coms.is_empty(), || "append leaves commitments in the second list".into())?;
            // the second list is empty: appending it again changes nothing, appending to it copies
            let mut b2 = b0.clone();
            b.append(&mut b2);
            ck(b == b0, || "the second list is not empty after append".into())?;
            let mut empty = b2;
            a.append(&mut empty);
            ck(a == whole, || "appending an empty list changes the first".into())?;
        }};
    }
    if left { go!(bc1, sc1) } else { go!(bc2, sc2) }
    Ok(())
}

// C07 ------------------------------------------------------------------------------------------
/// which orders of the six draws explain the keys generated from this random source
fn crs_orders(r0: &Rg, crs: &CRS<E>, cands: &[Vec<usize>]) -> Vec<Vec<usize>> {
    let mut ok = vec![];
    for o in cands {
        // o[k] = which value the k-th draw is: p1 p2 a1 a2 t1 t2
        let mut r = r0.clone();
        let (mut a, mut b, mut f) = (None, None, [Fr::zero(); 6]);
        for &w in o {
            match w {
                0 => a = Some(P1::rand(&mut r)),
                1 => b = Some(P2::rand(&mut r)),
                w => f[w] = Fr::rand(&mut r),
            }
            if w == 0 && a.unwrap().into_affine() != crs.g1_gen || w == 1 && b.unwrap().into_affine() != crs.g2_gen {
                break;
            }
        }
        let (Some(a), Some(b)) = (a, b) else { continue };
        let (q1, q2) = ((a * f[2]).into_affine(), (b * f[3]).into_affine());
        if crs.u[0] == Com1(a.into_affine(), q1) && crs.v[0] == Com2(b.into_affine(), q2)
            && crs.u[1] == Com1((a * f[4]).into_affine(), (q1 * f[4]).into_affine())
            && crs.v[1] == Com2((b * f[5]).into_affine(), (q2 * f[5]).into_affine())
        {
            ok.push(o.clone());
        }
    }
    ok
}
fn c07(g: &mut Gen, st: &mut State) -> Res {
    // the order of the draws, found on one ordinary key
    if st.orders.is_none() {
        let r0 = Rg::new(20, 26);
        let crs = CRS::<E>::generate_crs(&mut r0.clone());
        ck(crs.u.len() == 2 && crs.v.len() == 2, || "number of key elements".into())?;
        st.orders = Some(crs_orders(&r0, &crs, &all_perms(6)));
    }
    let orders = st.orders.clone().unwrap();
    ck(!orders.is_empty(), || "the keys are not a binding pair made from six independent fresh draws".into())?;
    let mut r = g.rng();
    r.script.clear();
    // special values for some of the scalar draws, at the places where they are made
    if g.below(4) > 0 {
        let mut s = r.clone();
        let same = g.fr();
        let mut said = vec![];
        for &w in &orders[0] {
            let at = s.words;
            match w {
                0 => drop(P1::rand(&mut s)),
                1 => drop(P2::rand(&mut s)),
                _ => {
                    Fr::rand(&mut s);
                    if g.below(2) == 0 {
                        let x = match g.below(4) { 0 => Fr::zero(), 1 => Fr::one(), 2 => same, _ => g.fr() };
                        said.push(format!("{}={x}", ["a1", "a2", "t1", "t2"][w - 2]));
                        r.at.extend((x.0).0.iter().enumerate().map(|(k, c)| (at + 1 + k as u64, *c)));
                    }
                }
            }
        }
        g.tell(format!("special draws {said:?}"));
    }
    let r0 = r.clone();
    let crs = CRS::<E>::generate_crs(&mut r);
    g.tell(format!("random source state {:?}", r0.s));
    ck(crs.u.len() == 2 && crs.v.len() == 2, || "number of key elements".into())?;
    ck(crs.g1_gen == crs.u[0].0 && crs.g2_gen == crs.v[0].0, || "the generators are not the first components of the first keys".into())?;
    ck(crs.gt_gen == E::pairing(crs.g1_gen, crs.g2_gen), || "the target generator is not the pairing of the generators".into())?;
    let ok = crs_orders(&r0, &crs, &orders);
    ck(!ok.is_empty(), || "the keys are not a binding pair made from six independent fresh draws".into())
}

// C08 ------------------------------------------------------------------------------------------
macro_rules! comp_ops {
    ($g:ident, $T:ty, $mk:expr, $arr:expr, $n:expr) => {{
        // pairs with related components
        let a: Vec<Fr> = (0..$n).map(|_| $g.fr()).collect();
        let b: Vec<Fr> = match $g.below(5) {
            0 => a.clone(),
            1 => a.iter().map(|x| -*x).collect(),
            2 => { let mut b = a.clone(); let k = $g.below($n); b[k] = $g.fr(); b }
            3 => { let mut b = a.clone(); b.reverse(); b }
            _ => (0..$n).map(|_| $g.fr()).collect(),
        };
        $g.tell(format!("{} a={} b={}", stringify!($T), show(&a), show(&b)));
        let mk = $mk;
        let z = |f: &dyn Fn(Fr, Fr) -> Fr| -> $T { mk(&a.iter().zip(&b).map(|(x, y)| f(*x, *y)).collect::<Vec<_>>()) };
        let (x, y): ($T, $T) = (mk(&a), mk(&b));
        let same = |p: $T, q: $T, w: &str| ck($arr(&p) == $arr(&q), || format!("{w} is not component-wise"));
        same(x + y, z(&|p, q| p + q), "+")?;
        same(x - y, z(&|p, q| p - q), "-")?;
        same(-x, z(&|p, _| -p), "negation")?;
        let mut t = x;
        t += y;
        same(t, z(&|p, q| p + q), "+=")?;
        let mut t = x;
        t -= y;
        same(t, z(&|p, q| p - q), "-=")?;
        same(<$T>::zero(), z(&|_, _| Fr::zero()), "zero")?;
        ck((x == y) == (a == b) && (x != y) == (a != b), || "equality".into())?;
        ck(x.is_zero() == a.iter().all(|v| v.is_zero()), || "is_zero".into())?;
        let mut t = x;
        t.set_zero();
        same(t, <$T>::zero(), "set_zero")?;
        let k = match $g.below(4) { 0 => 0, 1 => 1, _ => 1 + $g.dim(70) };
        let rows: Vec<Vec<Fr>> = (0..k).map(|i| if i % 3 == 2 && $g.one_in(2) { a.clone() } else { (0..$n).map(|_| $g.fr()).collect() }).collect();
        let s: $T = rows.iter().map(|r| mk(r)).sum();
        $g.tell(format!("sum of {k}"));
        let tot: Vec<Fr> = (0..$n).map(|i| rows.iter().map(|r| r[i]).sum()).collect();
        same(s, mk(&tot), "sum")?;
        #[allow(clippy::clone_on_copy)]
        same(x.clone(), x, "clone")?;
    }};
}
fn c08(g: &mut Gen, _st: &mut State) -> Res {
    match g.below(3) {
        0 => {
            comp_ops!(g, Com1<E>, |v: &[Fr]| com1([v[0], v[1]]), |x: &Com1<E>| (x.0, x.1), 2);
            let (a, c) = (g.v2(), g.fr());
            g.tell(format!("{} * {}", show(&[c]), show(&a)));
            let r = com1(a).scalar_mul(&c);
            let w = com1(sc(c, a));
            ck(r.0 == w.0 && r.1 == w.1, || "scalar_mul".into())
        }
        1 => {
            comp_ops!(g, Com2<E>, |v: &[Fr]| com2([v[0], v[1]]), |x: &Com2<E>| (x.0, x.1), 2);
            let (a, c) = (g.v2(), g.fr());
            g.tell(format!("{} * {}", show(&[c]), show(&a)));
            let r = com2(a).scalar_mul(&c);
            let w = com2(sc(c, a));
            ck(r.0 == w.0 && r.1 == w.1, || "scalar_mul".into())
        }
        _ => {
            comp_ops!(g, ComT<E>, |v: &[Fr]| ComT::<E>(gt(v[0]), gt(v[1]), gt(v[2]), gt(v[3])), |x: &ComT<E>| (x.0, x.1, x.2, x.3), 4);
            Ok(())
        }
    }
}

// C09 ------------------------------------------------------------------------------------------
fn is_pairing(p: &ComT<E>, x: &[V2], y: &[V2]) -> bool {
    let mut o = [Fr::zero(); 4];
    for (x, y) in x.iter().zip(y) {
        for e in 0..4 {
            o[e] += x[e / 2] * y[e % 2];
        }
    }
    p.0 == gt(o[0]) && p.1 == gt(o[1]) && p.2 == gt(o[2]) && p.3 == gt(o[3])
}
fn c09(g: &mut Gen, _st: &mut State) -> Res {
    if g.one_in(2) {
        let (x, y) = (g.v2(), g.v2());
        g.tell(format!("pairing {} {}", show(&x), show(&y)));
        return ck(is_pairing(&ComT::<E>::pairing(com1(x), com2(y)), &[x], &[y]), || "pairing is not the 2x2 matrix of pairings".into());
    }
    let n = if g.one_in(6) { 0 } else { g.dim(70) };
    let m = if g.one_in(4) { if g.one_in(3) { 0 } else { g.dim(70) } } else { n };
    let (mut x, y): (Vec<V2>, Vec<V2>) = ((0..n).map(|_| g.v2()).collect(), (0..m).map(|_| g.v2()).collect());
    if n > 1 && g.one_in(4) {
        x[n - 1] = x[0];
    }
    g.tell(format!("pairing_sum of lists of {n} and {m}"));
    let (a, b): (Vec<_>, Vec<_>) = (x.iter().map(|v| com1(*v)).collect(), y.iter().map(|v| com2(*v)).collect());
    if n != m {
        return ck(quiet(|| ComT::<E>::pairing_sum(&a, &b)).is_none(), || "lists of different length accepted".into());
    }
    ck(is_pairing(&ComT::<E>::pairing_sum(&a, &b), &x, &y), || "pairing_sum is not the sum of the pairings".into())
}

// C10 ------------------------------------------------------------------------------------------
fn c10(g: &mut Gen, _st: &mut State) -> Res {
    let key = g.key();
    let crs = key.crs();
    let (x, y) = (g.fr(), g.fr());
    g.tell(format!("x={} y={}", show(&[x]), show(&[y])));
    let (g1, g2) = (|k: &Fr| p1(*k), |k: &Fr| p2(*k));
    ck(Com1::<E>::linear_map(&p1(x)) == com1(key.i1(true, x)), || "embedding of G1".into())?;
    ck(Com2::<E>::linear_map(&p2(x)) == com2(key.i2(true, x)), || "embedding of G2".into())?;
    ck(Com1::<E>::scalar_linear_map(&x, &crs) == com1(key.i1(false, x)), || "embedding of a scalar in B1".into())?;
    ck(Com2::<E>::scalar_linear_map(&x, &crs) == com2(key.i2(false, x)), || "embedding of a scalar in B2".into())?;
    match g.below(5) {
        0 => {
            let n = if g.one_in(6) { 0 } else { g.dim(70) };
            let v = g.frs(n);
            g.tell(format!("batch of {n}: {}", show(&v)));
            let e = |l: Vec<Com1<E>>, f: bool| l.len() == n && l.iter().zip(&v).all(|(c, x)| *c == com1(key.i1(f, *x)));
            let f = |l: Vec<Com2<E>>, f: bool| l.len() == n && l.iter().zip(&v).all(|(c, x)| *c == com2(key.i2(f, *x)));
            ck(e(Com1::<E>::batch_linear_map(&v.iter().map(g1).collect::<Vec<_>>()), true), || "batch embedding of G1".into())?;
            ck(f(Com2::<E>::batch_linear_map(&v.iter().map(g2).collect::<Vec<_>>()), true), || "batch embedding of G2".into())?;
            ck(e(Com1::<E>::batch_scalar_linear_map(&v, &crs), false), || "batch embedding of scalars in B1".into())?;
            ck(f(Com2::<E>::batch_scalar_linear_map(&v, &crs), false), || "batch embedding of scalars in B2".into())
        }
        k => {
            let (k, t) = (k - 1, x * y);
            let (gx, gy) = (k < 2, k == 0 || k == 2);
            let o = match k {
                0 => ComT::<E>::linear_map_PPE(&gt(t)),
                1 => ComT::<E>::linear_map_MSMEG1(&p1(t), &crs),
                2 => ComT::<E>::linear_map_MSMEG2(&p2(t), &crs),
                _ => ComT::<E>::linear_map_quad(&t, &crs),
            };
            g.tell(format!("target embedding {k}"));
            ck(is_pairing(&o, &[key.i1(gx, x)], &[key.i2(gy, y)]), || "embedding of the product is not the pairing of the embeddings".into())
        }
    }
}

// C11 ------------------------------------------------------------------------------------------
fn pool(k: usize) -> rayon::ThreadPool {
    rayon::ThreadPoolBuilder::new().num_threads(k).build().unwrap()
}
macro_rules! mats {
    ($g:ident, $T:ty, $cap:expr, $mk:expr, $w:expr) => {{
        let (m, n) = $g.dims($cap);
        let k = $g.dim($cap).min((4 * $cap / m.max(n)).max(1));
        let lift = |a: &Vec<M>| -> Matrix<$T> { (0..a[0].len()).map(|i| (0..a[0][0].len()).map(|j| $mk(&a.iter().map(|p| p[i][j]).collect::<Vec<_>>())).collect()).collect() };
        let planes = |g: &mut Gen, m: usize, n: usize| -> Vec<M> { (0..$w).map(|_| g.mat(m, n)).collect() };
        let a = planes($g, m, n);
        let A = lift(&a);
        $g.tell(format!("{} {m}x{n}", stringify!($T)));
        let eq = |x: &Matrix<$T>, y: Vec<M>, w: &str| { let y = lift(&y); ck(*x == y, || format!("{w} is wrong")) };
        match $g.below(6) {
            0 => {
                let b = planes($g, m, n);
                let s: Vec<M> = a.iter().zip(&b).map(|(p, q)| p.iter().zip(q).map(|(r, s)| r.iter().zip(s).map(|(x, y)| *x + y).collect()).collect()).collect();
                eq(&Mat::add(&A, &lift(&b)), s, "matrix addition")?;
            }
            1 => eq(&Mat::neg(&A), a.iter().map(|p| p.iter().map(|r| r.iter().map(|x| -*x).collect()).collect()).collect(), "matrix negation")?,
            2 => {
                let c = $g.fr();
                $g.tell(format!("times {}", show(&[c])));
                eq(&Mat::scalar_mul(&A, &c), a.iter().map(|p| p.iter().map(|r| r.iter().map(|x| *x * c).collect()).collect()).collect(), "matrix scalar multiplication")?
            }
            3 => eq(&Mat::transpose(&A), a.iter().map(trans).collect(), "transpose")?,
            4 => {
                let b = $g.mat(n, k);
                $g.tell(format!("right_mul by {n}x{k}"));
                let want: Vec<M> = a.iter().map(|p| mmul(p, &b)).collect();
                eq(&A.right_mul(&b, false), want.clone(), "sequential right_mul")?;
                eq(&A.right_mul(&b, true), want.clone(), "parallel right_mul")?;
                let th = 1 + $g.below(4);
                eq(&pool(th).install(|| A.right_mul(&b, true)), want, "parallel right_mul in another pool")?;
                let l = n + 1 + $g.below(2);
                let l = if n > 1 && $g.one_in(2) { n - 1 } else { l };
                let b = $g.mat(l, k);
                for par in [false, true] {
                    ck(quiet(|| A.right_mul(&b, par)).is_none(), || format!("right_mul of {m}x{n} by {l}x{k} accepted (parallel: {par})"))?;
                }
            }
            _ => {
                let b = $g.mat(k, m);
                $g.tell(format!("left_mul by {k}x{m}"));
                let want: Vec<M> = a.iter().map(|p| mmul(&b, p)).collect();
                eq(&A.left_mul(&b, false), want.clone(), "sequential left_mul")?;
                eq(&A.left_mul(&b, true), want.clone(), "parallel left_mul")?;
                let th = 1 + $g.below(4);
                eq(&pool(th).install(|| A.left_mul(&b, true)), want, "parallel left_mul in another pool")?;
                let l = m + 1 + $g.below(2);
                let l = if m > 1 && $g.one_in(2) { m - 1 } else { l };
                let b = $g.mat(k, l);
                for par in [false, true] {
                    ck(quiet(|| A.left_mul(&b, par)).is_none(), || format!("left_mul of {m}x{n} by {k}x{l} accepted (parallel: {par})"))?;
                }
            }
        }
    }};
}
fn c11(g: &mut Gen, _st: &mut State) -> Res {
    match g.below(4) {
        0 => mats!(g, Com1<E>, 12, |v: &[Fr]| com1([v[0], v[1]]), 2),
        1 => mats!(g, Com2<E>, 8, |v: &[Fr]| com2([v[0], v[1]]), 2),
        _ => mats!(g, Fr, 90, |v: &[Fr]| v[0], 1),
    }
    Ok(())
}

// C12 ------------------------------------------------------------------------------------------
fn c12(g: &mut Gen, _st: &mut State) -> Res {
    let n = if g.one_in(8) { 0 } else { g.dim(300) };
    let l = g.frs(n);
    g.tell(format!("list of {n}: {}", show(&l)));
    let c = vec_to_col_vec(&l);
    ck(c == l.iter().map(|x| vec![*x]).collect::<M>(), || "vec_to_col_vec is not the column of the list".into())?;
    ck(col_vec_to_vec(&c) == l, || "list to column and back is not the list".into())?;
    ck(n == 0 || col_vec_to_vec(&vec![l.clone()]) == l, || "a single row is not read as that row".into())?;
    let (x, y) = (g.v2(), g.v2());
    g.tell(format!("elements {} {}", show(&x), show(&y)));
    let (a, b) = (com1(x), com2(x));
    ck(a.as_vec() == vec![p1(x[0]), p1(x[1])] && b.as_vec() == vec![p2(x[0]), p2(x[1])], || "as_vec".into())?;
    ck(a.as_col_vec() == vec![vec![p1(x[0])], vec![p1(x[1])]] && b.as_col_vec() == vec![vec![p2(x[0])], vec![p2(x[1])]], || "as_col_vec".into())?;
    ck(Com1::<E>::from(a.as_col_vec()) == a && Com2::<E>::from(b.as_col_vec()) == b, || "from(as_col_vec)".into())?;
    let t = ComT::<E>(gt(x[0]), gt(x[1]), gt(y[0]), gt(y[1]));
    ck(t.as_matrix() == vec![vec![t.0, t.1], vec![t.2, t.3]], || "as_matrix".into())?;
    ck(ComT::<E>::from(t.as_matrix()) == t, || "from(as_matrix)".into())?;
    // other shapes
    let rows = g.below(4);
    let shape: Vec<usize> = (0..rows).map(|_| g.below(4)).collect();
    let v = g.fr();
    g.tell(format!("row lengths {shape:?}"));
    if shape != [1, 1] {
        ck(quiet(|| Com1::<E>::from(shape.iter().map(|n| vec![p1(v); *n]).collect::<Matrix<A1>>())).is_none(), || "B1 from a matrix of another shape".into())?;
        ck(quiet(|| Com2::<E>::from(shape.iter().map(|n| vec![p2(v); *n]).collect::<Matrix<A2>>())).is_none(), || "B2 from a matrix of another shape".into())?;
    }
    if shape != [2, 2] {
        ck(quiet(|| ComT::<E>::from(shape.iter().map(|n| vec![gt(v); *n]).collect::<Matrix<GT>>())).is_none(), || "BT from a matrix of another shape".into())?;
    }
    Ok(())
}

// C13 ------------------------------------------------------------------------------------------
fn trip<T: CanonicalSerialize + CanonicalDeserialize>(g: &mut Gen, w: &str, x: &T, eq: impl Fn(&T, &T) -> bool) -> Res {
    let tail: Vec<u8> = (0..g.below(5)).map(|_| g.below(256) as u8).collect();
    for c in [Compress::Yes, Compress::No] {
        let cn = if c == Compress::Yes { "compressed" } else { "uncompressed" };
        let mut b = vec![];
        x.serialize_with_mode(&mut b, c).map_err(|e| format!("{w}: serialization fails: {e:?}"))?;
        ck(b.len() == x.serialized_size(c), || format!("{w}: {} bytes written, {} announced ({cn})", b.len(), x.serialized_size(c)))?;
        let n = b.len();
        b.extend(&tail);
        for v in [Validate::Yes, Validate::No] {
            let mut r = &b[..];
            let y = T::deserialize_with_mode(&mut r, c, v).map_err(|e| format!("{w}: decoding fails: {e:?} ({cn})"))?;
            ck(b.len() - r.len() == n, || format!("{w}: {n} bytes written, {} read ({cn})", b.len() - r.len()))?;
            ck(eq(&y, x), || format!("{w}: decodes to another object ({cn})"))?;
        }
    }
    Ok(())
}
fn c13(g: &mut Gen, st: &mut State) -> Res {
    let key = g.key();
    let crs0 = key.crs();
    match g.below(6) {
        0 => {
            let mut crs = crs0;
            for _ in 0..g.below(3) {
                let (a, b) = (g.v2(), g.v2());
                if g.one_in(2) { crs.u.push(com1(a)) } else { crs.v.push(com2(b)) }
            }
            g.tell(format!("CRS with {} and {} key elements", crs.u.len(), crs.v.len()));
            trip(g, "CRS", &crs, |a, b| a.u == b.u && a.v == b.v && a.g1_gen == b.g1_gen && a.g2_gen == b.g2_gen && a.gt_gen == b.gt_gen)
        }
        1 => {
            let (e, x, y) = g.eqn(12);
            tell_eq(g, &e, &x, &y);
            let mut e = e;
            if g.one_in(3) {
                e.a.truncate(1);
            }
            with_eq!(&e, q, _x, _y, &[] as &[Fr], &[] as &[Fr], trip(g, "equation", &q, |a, b| a == b && a.a_consts == b.a_consts && a.b_consts == b.b_consts && a.gamma == b.gamma && a.target == b.target))
        }
        2 => {
            let x = g.v2();
            g.tell(format!("elements {}", show(&x)));
            trip(g, "Com1", &com1(x), |a, b| a == b && a.0 == b.0 && a.1 == b.1)?;
            trip(g, "Com2", &com2(x), |a, b| a == b && a.0 == b.0 && a.1 == b.1)
        }
        3 => {
            let n = g.dim(40);
            let (x, grp) = (g.frs(n), g.one_in(2));
            let mut r = g.rng();
            g.tell(format!("commitments to {n} {}", if grp { "elements" } else { "scalars" }));
            let mut c = bc1(grp, &x, &crs0, &mut r);
            let mut d = bc2(grp, &x, &crs0, &mut r);
            trip(g, "Commit1", &c, |a, b| a == b && a.coms == b.coms && format!("{a:?}") == format!("{b:?}"))?;
            trip(g, "Commit2", &d, |a, b| a == b && a.coms == b.coms && format!("{a:?}") == format!("{b:?}"))?;
            let mut c2 = c.clone();
            let mut d2 = d.clone();
            c.append(&mut c2);
            d.append(&mut d2);
            trip(g, "empty Commit1", &c2, |a, b| a == b)?;
            trip(g, "empty Commit2", &d2, |a, b| a == b)?;
            trip(g, "Commit1", &c, |a, b| a == b)
        }
        4 => {
            let (e, x, y) = g.eqn(3);
            let mut r = g.rng();
            let honest = g.one_in(2);
            let p = if honest {
                cap(&e, &x, &y, &crs0, &mut r).equ_proofs.remove(0)
            } else {
                let (a, b) = (g.below(4), g.below(4));
                let (pi, th): (Vec<V2>, Vec<V2>) = ((0..a).map(|_| g.v2()).collect(), (0..b).map(|_| g.v2()).collect());
                g.tell(format!("{a} and {b} proof elements"));
                raw_proof(st, &e, &pi, &th)
            };
            trip(g, "EquProof", &p, |a, b| a == b && a.pi == b.pi && a.theta == b.theta && a.equ_type == b.equ_type && format!("{a:?}") == format!("{b:?}"))
        }
        _ => {
            g.tell("EquType".into());
            // one case in a few does it very often: a change that depends on how often comes out
            let rounds = if g.one_in(4) { 200_000 } else { 1 };
            let all = [EquType::PairingProduct, EquType::MultiScalarG1, EquType::MultiScalarG2, EquType::Quadratic];
            for (i, t) in all.iter().enumerate() {
                for c in [Compress::Yes, Compress::No] {
                    let mut b = vec![];
                    for _ in 0..rounds {
                        b.clear();
                        t.serialize_with_mode(&mut b, c).map_err(|e| format!("{e:?}"))?;
                        ck(b == [i as u8], || format!("{t:?} is encoded as {b:?}"))?;
                        let d = EquType::deserialize_with_mode(&b[..], c, Validate::Yes);
                        ck(d.map(|d| d == *t).unwrap_or(false), || format!("the encoding of {t:?} does not decode to it"))?;
                    }
                }
                trip(g, "EquType", t, |a, b| a == b && format!("{a:?}") == format!("{b:?}"))?;
            }
            for c in [Compress::Yes, Compress::No] {
                for v in [Validate::Yes, Validate::No] {
                    ck(EquType::deserialize_with_mode(&[] as &[u8], c, v).is_err(), || "missing tag accepted".into())?;
                    for b in 4..=255u8 {
                        let extra = g.below(4) as u8;
                        ck(EquType::deserialize_with_mode(&[b, extra][..], c, v).is_err(), || format!("tag {b} accepted"))?;
                    }
                }
            }
            Ok(())
        }
    }
}

// C14 ------------------------------------------------------------------------------------------
fn c14(g: &mut Gen, _st: &mut State) -> Res {
    let key = g.key();
    let crs = key.crs();
    let (e, x, y) = if g.one_in(4) {
        // everything zero: even a truncated sum balances
        let (e, x, y) = g.eqn(4);
        let z = |n: usize| vec![Fr::zero(); n];
        (Eqn { a: z(e.n()), b: z(e.m()), gam: vec![z(e.n()); e.m()], t: Fr::zero(), ..e }, x, y)
    } else {
        g.eqn(4)
    };
    tell_eq(g, &e, &x, &y);
    let mut r = g.rng();
    if g.one_in(2) {
        let mut p = cap(&e, &x, &y, &crs, &mut r);
        let zero = g.one_in(3);
        if zero {
            // zero commitments and proof elements: no missing term would be noticed in the sums
            for c in p.xcoms.coms.iter_mut() { *c = Com1::zero(); }
            for c in p.ycoms.coms.iter_mut() { *c = Com2::zero(); }
            for c in p.equ_proofs[0].pi.iter_mut() { *c = Com2::zero(); }
            for c in p.equ_proofs[0].theta.iter_mut() { *c = Com1::zero(); }
            g.tell("zero proof".into());
        }
        let k = g.below(10);
        let what = match k {
            0 | 1 => {
                let t = (e.ty + 1 + g.below(3)) % 4;
                p.equ_proofs[0].equ_type = ety(&Eqn { ty: t, ..e.clone() });
                format!("declared type {t}")
            }
            2 => { p.equ_proofs.clear(); "no equation proof".into() }
            3 => { let q = p.equ_proofs[0].clone(); p.equ_proofs.push(q); "two equation proofs".into() }
            4 => { let n = g.below(e.p()); p.equ_proofs[0].pi.truncate(n); format!("{n} elements of pi") }
            5 => { let n = g.below(e.q()); p.equ_proofs[0].theta.truncate(n); format!("{n} elements of theta") }
            6 => { p.xcoms.coms.pop(); "one X commitment too few".into() }
            7 => { p.ycoms.coms.pop(); "one Y commitment too few".into() }
            8 => { let c = if g.one_in(2) { Com1::zero() } else { p.xcoms.coms[0] }; p.xcoms.coms.push(c); "one X commitment too many".into() }
            _ => { let c = if g.one_in(2) { Com2::zero() } else { p.ycoms.coms[0] }; p.ycoms.coms.push(c); "one Y commitment too many".into() }
        };
        g.tell(what.clone());
        return ck(quiet(|| verify(&e, &p, &crs)) != Some(true), || format!("verification accepts a proof with {what}"));
    }
    let (m, n) = (e.m(), e.n());
    let (mut mx, mut ny, mut mc, mut nd, mut ma, mut nb) = (m, n, m, n, n, m);
    let (mut gx, mut gy) = (e.gx(), e.gy());
    let ch = |g: &mut Gen, x: usize| if x > 1 && g.one_in(2) { x - 1 } else { x + 1 };
    let k = g.below(8);
    match k {
        0 => mx = ch(g, m),
        1 => ny = ch(g, n),
        2 => mc = ch(g, m),
        3 => nd = ch(g, n),
        4 => ma = ch(g, n),
        5 => nb = ch(g, m),
        6 => gx = !gx,
        _ => gy = !gy,
    }
    let mut e2 = e.clone();
    e2.a = g.frs(ma);
    e2.b = g.frs(nb);
    g.tell(format!("prover with {mx} X values, {ny} Y values, {mc} X and {nd} Y commitments ({}, {}), {ma} and {nb} constants",
        if gx { "group" } else { "scalar" }, if gy { "group" } else { "scalar" }));
    let (xs, ys, xc, yc) = (g.frs(mx), g.frs(ny), g.frs(mc), g.frs(nd));
    let c = bc1(gx, &xc, &crs, &mut r);
    let d = bc2(gy, &yc, &crs, &mut r);
    ck(quiet(|| prove(&e2, &xs, &ys, &c, &d, &crs, &mut r)).is_none(), || "the prover yields a proof for mismatched dimensions".into())
}

// C15 ------------------------------------------------------------------------------------------
fn c15(g: &mut Gen, _st: &mut State) -> Res {
    let key = g.key();
    let crs = key.crs();
    let (mut e, x, y) = g.eqn(8);
    if g.one_in(2) {
        e.t = g.fr();
        g.tell("not satisfied".into());
    }
    tell_eq(g, &e, &x, &y);
    let mut r = g.rng();
    let mut r2 = r.clone();
    let p = cap(&e, &x, &y, &crs, &mut r);
    let c = bc1(e.gx(), &x, &crs, &mut r2);
    let d = bc2(e.gy(), &y, &crs, &mut r2);
    let q = prove(&e, &x, &y, &c, &d, &crs, &mut r2);
    ck(p.xcoms == c && p.ycoms == d && format!("{:?}{:?}", p.xcoms, p.ycoms) == format!("{c:?}{d:?}"), || "the commitments are not those of the batch commit functions".into())?;
    ck(p.equ_proofs.len() == 1, || format!("{} equation proofs", p.equ_proofs.len()))?;
    ck(p.equ_proofs[0] == q && format!("{:?}", p.equ_proofs[0]) == format!("{q:?}"), || "the proof is not the one prove gives for those commitments".into())?;
    ck(r == r2, || "the random source is left in another state".into())?;
    ck(q.equ_type == ety(&e), || format!("declared type {:?}", q.equ_type))?;
    ck(q.pi.len() == e.p() && q.theta.len() == e.q(), || format!("{} elements of pi, {} of theta", q.pi.len(), q.theta.len()))?;
    let ty = with_eq!(&e, s, _x, _y, &[] as &[Fr], &[] as &[Fr], Equation::get_type(&s));
    ck(ty == ety(&e), || "get_type".into())
}

pub fn run(prop: &str, g: &mut Gen, st: &mut State) -> Res {
    match prop {
        "C01" => c01(g, st),
        "C02" => c02(g, st),
        "C03" => c03(g, st),
        "C04" => c04(g, st, false),
        "C05" => c05(g, st),
        "C06" => c06(g, st),
        "C07" => c07(g, st),
        "C08" => c08(g, st),
        "C09" => c09(g, st),
        "C10" => c10(g, st),
        "C11" => c11(g, st),
        "C12" => c12(g, st),
        "C13" => c13(g, st),
        "C14" => c14(g, st),
        "C15" => c15(g, st),
        _ => Err(format!("unknown property {prop}")),
    }
}
