use crate::util::*;
use ark_ff::{Field, One, UniformRand, Zero};

pub struct Gen {
    pub r: Rg,
    pub seen: Vec<Fr>,
    pub lits: Vec<u64>,
    pub note: String,
}
/// an equation of type `ty` (0 PPE, 1 MSMEG1, 2 MSMEG2, 3 quadratic), in discrete logarithms
#[derive(Clone, Debug)]
pub struct Eqn {
    pub ty: usize,
    pub a: Vec<Fr>,
    pub b: Vec<Fr>,
    pub gam: M,
    pub t: Fr,
}
impl Eqn {
    pub fn gx(&self) -> bool {
        self.ty < 2
    }
    pub fn gy(&self) -> bool {
        self.ty == 0 || self.ty == 2
    }
    pub fn p(&self) -> usize {
        1 + self.gx() as usize
    }
    pub fn q(&self) -> usize {
        1 + self.gy() as usize
    }
    pub fn m(&self) -> usize {
        self.gam.len()
    }
    pub fn n(&self) -> usize {
        self.gam[0].len()
    }
    pub fn value(&self, x: &[Fr], y: &[Fr]) -> Fr {
        let mut s = Fr::zero();
        for j in 0..self.n() {
            s += self.a[j] * y[j];
        }
        for i in 0..self.m() {
            s += x[i] * self.b[i];
            for j in 0..self.n() {
                s += x[i] * self.gam[i][j] * y[j];
            }
        }
        s
    }
    /// left side minus right side of the verification equation, a 2x2 matrix
    pub fn defect(&self, k: &Key, c: &[V2], d: &[V2], pi: &[V2], th: &[V2]) -> [Fr; 4] {
        let mut o = [Fr::zero(); 4];
        let mut acc = |s: Fr, x: V2, y: V2| {
            for e in 0..4 {
                o[e] += s * x[e / 2] * y[e % 2];
            }
        };
        let one = Fr::one();
        for j in 0..self.n() {
            acc(one, k.i1(self.gx(), self.a[j]), d[j]);
        }
        for i in 0..self.m() {
            acc(one, c[i], k.i2(self.gy(), self.b[i]));
            for j in 0..self.n() {
                acc(self.gam[i][j], c[i], d[j]);
            }
        }
        match self.ty {
            0 => acc(-self.t, [Fr::zero(), one], [Fr::zero(), one]),
            1 => acc(-self.t, [Fr::zero(), one], k.w2()),
            2 => acc(-self.t, k.w1(), [Fr::zero(), one]),
            _ => acc(-self.t, k.w1(), k.w2()),
        }
        for (j, x) in pi.iter().enumerate().take(self.p()) {
            acc(-one, k.u[j], *x);
        }
        for (j, x) in th.iter().enumerate().take(self.q()) {
            acc(-one, *x, k.v[j]);
        }
        o
    }
    /// the prover's formulas: R is m x p, S is n x q, T is q x p
    pub fn proof(&self, k: &Key, x: &[Fr], y: &[Fr], R: &M, S: &M, T: &M) -> (Vec<V2>, Vec<V2>) {
        let (rt, st) = (trans(R), trans(S));
        let rg = mmul(&rt, &self.gam); // p x n
        let sg = mmul(&st, &trans(&self.gam)); // q x m
        let rgs = mmul(&rg, S); // p x q
        let pi = (0..self.p())
            .map(|e| {
                let mut o = Z;
                for i in 0..self.m() {
                    o = add(o, sc(rt[e][i], k.i2(self.gy(), self.b[i])));
                }
                for j in 0..self.n() {
                    o = add(o, sc(rg[e][j], k.i2(self.gy(), y[j])));
                }
                for f in 0..self.q() {
                    o = add(o, sc(rgs[e][f] - T[f][e], k.v[f]));
                }
                o
            })
            .collect();
        let th = (0..self.q())
            .map(|f| {
                let mut o = Z;
                for j in 0..self.n() {
                    o = add(o, sc(st[f][j], k.i1(self.gx(), self.a[j])));
                }
                for i in 0..self.m() {
                    o = add(o, sc(sg[f][i], k.i1(self.gx(), x[i])));
                }
                for e in 0..self.p() {
                    o = add(o, sc(T[f][e], k.u[e]));
                }
                o
            })
            .collect();
        (pi, th)
    }
}

impl Gen {
    pub fn new(seed: u64, i: u64, lits: Vec<u64>) -> Gen {
        let r = Rg::new(seed.wrapping_mul(0x1000003).wrapping_add(7), i);
        Gen { r, seen: vec![], lits, note: String::new() }
    }
    pub fn below(&mut self, n: usize) -> usize {
        use ark_std::rand::RngCore;
        ((self.r.next_u64() >> 11) % n as u64) as usize
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn tell(&mut self, s: String) {
        if !self.note.is_empty() {
            self.note.push_str(", ");
        }
        self.note.push_str(&s);
    }
    fn lit(&mut self) -> u64 {
        let pool = [2u64, 3, 4, 5, 7, 8, 10, 16, 32, 64, 100, 128, 255, 256, 1000, 65535, 65536, u32::MAX as u64, 1 << 32, u64::MAX];
        if !self.lits.is_empty() && self.one_in(2) {
            let k = self.below(self.lits.len());
            self.lits[k]
        } else {
            pool[self.below(pool.len())]
        }
    }
    pub fn fr(&mut self) -> Fr {
        let x = match self.below(12) {
            0 => Fr::zero(),
            1 => Fr::one(),
            2 => -Fr::one(),
            3 | 4 if !self.seen.is_empty() => {
                let k = self.below(self.seen.len());
                self.seen[k]
            }
            5 if !self.seen.is_empty() => {
                let k = self.below(self.seen.len());
                -self.seen[k]
            }
            6 => Fr::from(self.lit()),
            7 => -Fr::from(self.lit()),
            8 if !self.seen.is_empty() => {
                let k = self.below(self.seen.len());
                self.seen[k].inverse().unwrap_or(Fr::zero())
            }
            9 if self.seen.len() > 1 => {
                let (k, l) = (self.below(self.seen.len()), self.below(self.seen.len()));
                self.seen[k] + self.seen[l]
            }
            _ => Fr::rand(&mut self.r),
        };
        self.seen.push(x);
        x
    }
    pub fn nz(&mut self) -> Fr {
        loop {
            let x = self.fr();
            if !x.is_zero() {
                return x;
            }
        }
    }
    pub fn frs(&mut self, n: usize) -> Vec<Fr> {
        match self.below(10) {
            0 => vec![Fr::zero(); n],
            1 => vec![self.fr(); n],
            // symmetric, so that reversing or swapping is not seen by chance only
            2 => {
                let a: Vec<Fr> = (0..n).map(|_| self.fr()).collect();
                (0..n).map(|i| a[i.min(n - 1 - i)]).collect()
            }
            3 => (0..n).map(|_| Fr::rand(&mut self.r)).collect(),
            _ => (0..n).map(|_| self.fr()).collect(),
        }
    }
    pub fn mat(&mut self, m: usize, n: usize) -> M {
        match self.below(8) {
            0 => vec![vec![Fr::zero(); n]; m],
            1 => (0..m).map(|i| (0..n).map(|j| Fr::from((i == j) as u64)).collect()).collect(),
            2 => {
                let r = self.frs(n);
                vec![r; m]
            }
            3 => {
                let mut a: M = (0..m).map(|_| self.frs(n)).collect();
                let k = self.below(m);
                a[k] = vec![Fr::zero(); n];
                let k = self.below(n);
                if self.one_in(2) {
                    for r in a.iter_mut() {
                        r[k] = Fr::zero();
                    }
                }
                a
            }
            _ => (0..m).map(|_| self.frs(n)).collect(),
        }
    }
    pub fn v2(&mut self) -> V2 {
        [self.fr(), self.fr()]
    }
    /// a size: mostly small, at times one near a literal of the code
    pub fn dim(&mut self, cap: usize) -> usize {
        let d = match self.below(24) {
            0..=5 => 1,
            6..=11 => 2,
            12..=15 => 3,
            16..=18 => 4,
            19 => 5 + self.below(4),
            20 => 9 + self.below(30),
            _ => {
                let l: Vec<u64> = self.lits.iter().copied().filter(|x| *x > 0 && *x as usize <= 2 * cap).collect();
                if l.is_empty() {
                    1 + self.below(6)
                } else {
                    let k = self.below(l.len());
                    (l[k] as usize + self.below(3)).saturating_sub(1)
                }
            }
        };
        d.clamp(1, cap)
    }
    /// two dimensions; their product stays affordable
    pub fn dims(&mut self, cap: usize) -> (usize, usize) {
        let m = self.dim(cap);
        let n = match self.below(4) {
            0 => m,
            _ => self.dim(cap),
        };
        let n = n.min((4 * cap / m).max(1));
        (m, n)
    }
    pub fn key(&mut self) -> Key {
        let k = self.below(8);
        let (g1, g2) = (self.nz(), self.nz());
        let mut key = Key { u: [Z; 2], v: [Z; 2], g: [g1, g2, g1 * g2] };
        if k < 6 {
            let (a1, a2, t1, t2) = (self.fr(), self.fr(), self.fr(), self.fr());
            key.u[0] = [g1, a1 * g1];
            key.v[0] = [g2, a2 * g2];
            key.u[1] = sc(t1, key.u[0]);
            key.v[1] = sc(t2, key.v[0]);
            if k % 2 == 1 {
                key.u[1][1] -= g1;
                key.v[1][1] -= g2;
            }
            self.tell(if k % 2 == 1 { "hiding key".into() } else { "binding key".into() });
        } else {
            key = Key { u: [self.v2(), self.v2()], v: [self.v2(), self.v2()], g: [self.fr(), self.fr(), self.fr()] };
            self.tell("arbitrary key".into());
        }
        key
    }
    /// a binding key and its trapdoors
    pub fn binding(&mut self) -> (Key, Fr, Fr) {
        let (g1, g2, a1, a2) = (self.nz(), self.nz(), self.fr(), self.fr());
        let (t1, t2) = (self.fr(), self.fr());
        let (u0, v0) = ([g1, a1 * g1], [g2, a2 * g2]);
        (Key { u: [u0, sc(t1, u0)], v: [v0, sc(t2, v0)], g: [g1, g2, g1 * g2] }, a1, a2)
    }
    pub fn hiding(&mut self) -> Key {
        let (mut k, _, _) = self.binding();
        k.u[1][1] -= k.g[0];
        k.v[1][1] -= k.g[1];
        k
    }
    pub fn eqn(&mut self, cap: usize) -> (Eqn, Vec<Fr>, Vec<Fr>) {
        let ty = self.below(4);
        let (m, n) = self.dims(cap);
        let mut e = Eqn { ty, a: self.frs(n), b: self.frs(m), gam: self.mat(m, n), t: Fr::zero() };
        let (x, y) = (self.frs(m), self.frs(n));
        e.t = e.value(&x, &y);
        self.tell(format!("{} {}x{}", ["PPE", "MSMEG1", "MSMEG2", "QuadEqu"][ty], m, n));
        (e, x, y)
    }
    /// a random source for the crate; at times the first scalars it gives are special ones
    pub fn rng(&mut self) -> Rg {
        use ark_std::rand::RngCore;
        let mut r = Rg::new(self.r.next_u64(), self.r.next_u64());
        if self.one_in(3) {
            for _ in 0..self.below(12) {
                let x = self.fr();
                r.push(x);
            }
            self.tell("special randomness".into());
        }
        r
    }
}
