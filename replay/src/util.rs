//! Arithmetic on discrete logarithms, and conversion to the crate's objects.
use ark_bls12_381::Bls12_381;
use ark_ec::pairing::{Pairing, PairingOutput};
use ark_ec::{AffineRepr, CurveGroup, PrimeGroup};
use ark_ff::{AdditiveGroup, Zero};
use ark_std::rand::{Error, RngCore};
use groth_sahai::data_structures::*;
use groth_sahai::CRS;
use std::collections::VecDeque;

pub type E = Bls12_381;
pub type Fr = <E as Pairing>::ScalarField;
pub type A1 = <E as Pairing>::G1Affine;
pub type A2 = <E as Pairing>::G2Affine;
pub type P1 = <E as Pairing>::G1;
pub type P2 = <E as Pairing>::G2;
pub type GT = PairingOutput<E>;
pub type M = Vec<Vec<Fr>>;
pub type V2 = [Fr; 2];
pub type Res = Result<(), String>;

pub fn p1(k: Fr) -> A1 {
    (P1::generator() * k).into_affine()
}
pub fn p2(k: Fr) -> A2 {
    (P2::generator() * k).into_affine()
}
pub fn gt(k: Fr) -> GT {
    E::pairing(A1::generator(), A2::generator()) * k
}
pub fn com1(x: V2) -> Com1<E> {
    Com1(p1(x[0]), p1(x[1]))
}
pub fn com2(x: V2) -> Com2<E> {
    Com2(p2(x[0]), p2(x[1]))
}
pub fn add(a: V2, b: V2) -> V2 {
    [a[0] + b[0], a[1] + b[1]]
}
pub fn sc(c: Fr, a: V2) -> V2 {
    [c * a[0], c * a[1]]
}
pub const Z: V2 = [Fr::ZERO, Fr::ZERO];

#[derive(Clone, Debug)]
pub struct Key {
    pub u: [V2; 2],
    pub v: [V2; 2],
    pub g: [Fr; 3],
}
impl Key {
    pub fn w1(&self) -> V2 {
        add(self.u[1], [Fr::zero(), self.g[0]])
    }
    pub fn w2(&self) -> V2 {
        add(self.v[1], [Fr::zero(), self.g[1]])
    }
    pub fn crs(&self) -> CRS<E> {
        CRS {
            u: self.u.iter().map(|x| com1(*x)).collect(),
            v: self.v.iter().map(|x| com2(*x)).collect(),
            g1_gen: p1(self.g[0]),
            g2_gen: p2(self.g[1]),
            gt_gen: gt(self.g[2]),
        }
    }
    /// embedding of a value on the left or right, as a group element or a scalar
    pub fn i1(&self, grp: bool, x: Fr) -> V2 {
        if grp { [Fr::zero(), x] } else { sc(x, self.w1()) }
    }
    pub fn i2(&self, grp: bool, x: Fr) -> V2 {
        if grp { [Fr::zero(), x] } else { sc(x, self.w2()) }
    }
    pub fn c1(&self, grp: bool, x: Fr, r: &[Fr]) -> V2 {
        r.iter().enumerate().fold(self.i1(grp, x), |a, (k, r)| add(a, sc(*r, self.u[k])))
    }
    pub fn c2(&self, grp: bool, x: Fr, r: &[Fr]) -> V2 {
        r.iter().enumerate().fold(self.i2(grp, x), |a, (k, r)| add(a, sc(*r, self.v[k])))
    }
}

/// a random source that can be told the next words
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Rg {
    pub s: [u64; 2],
    pub script: VecDeque<u64>,
    pub words: u64,
    /// words that replace those at the given positions
    pub at: std::collections::BTreeMap<u64, u64>,
}
impl Rg {
    pub fn new(a: u64, b: u64) -> Rg {
        let mut r = Rg { s: [a ^ 0x9E3779B97F4A7C15, b.wrapping_mul(0xBF58476D1CE4E5B9) ^ 0x94D049BB133111EB], script: VecDeque::new(), words: 0, at: Default::default() };
        for _ in 0..8 {
            r.raw();
        }
        r
    }
    fn raw(&mut self) -> u64 {
        // xorshift128+
        let (mut x, y) = (self.s[0], self.s[1]);
        self.s[0] = y;
        x ^= x << 23;
        self.s[1] = x ^ y ^ (x >> 17) ^ (y >> 26);
        self.s[1].wrapping_add(y)
    }
    pub fn push(&mut self, x: Fr) {
        self.script.extend((x.0).0);
    }
}
impl RngCore for Rg {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.words += 1;
        let w = self.script.pop_front().unwrap_or_else(|| self.raw());
        self.at.get(&self.words).copied().unwrap_or(w)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for c in d.chunks_mut(8) {
            let w = self.next_u64().to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

pub fn mmul(a: &M, b: &M) -> M {
    a.iter().map(|r| (0..b[0].len()).map(|j| r.iter().zip(b).map(|(x, y)| *x * y[j]).sum()).collect()).collect()
}
pub fn trans(a: &M) -> M {
    (0..a[0].len()).map(|j| a.iter().map(|r| r[j]).collect()).collect()
}
pub fn quiet<T>(f: impl FnOnce() -> T) -> Option<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}
pub fn ck(c: bool, m: impl FnOnce() -> String) -> Res {
    if c { Ok(()) } else { Err(m()) }
}
