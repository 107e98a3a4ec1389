//! Reference extension towers over big integers:
//! Fp2 = Fp[u]/(u^2 - beta), and Fp2[x]/(x^n - xi) for n = 3 (Fp6) and 6 (Fp12).
//! Everything is schoolbook polynomial arithmetic; nothing is shared with the
//! code under test.
use crate::big::*;
use num_bigint::BigUint;
use num_traits::{One, Zero};

pub type R2 = (B, B);
/// Coefficients over Fp2 of 1, x, x^2, ...
pub type RN = Vec<R2>;

#[derive(Clone)]
pub struct Tower {
    pub p: B,
    pub beta: B,
    pub xi: R2,
}

impl Tower {
    pub fn new(p: &B, beta: i64, xi: R2) -> Tower {
        let beta = if beta < 0 { p - b((-beta) as u64) } else { b(beta as u64) };
        Tower { p: p.clone(), beta, xi }
    }
    pub fn zero(&self) -> R2 {
        (B::zero(), B::zero())
    }
    pub fn one(&self) -> R2 {
        (B::one(), B::zero())
    }
    pub fn add(&self, a: &R2, c: &R2) -> R2 {
        (addm(&a.0, &c.0, &self.p), addm(&a.1, &c.1, &self.p))
    }
    pub fn sub(&self, a: &R2, c: &R2) -> R2 {
        (subm(&a.0, &c.0, &self.p), subm(&a.1, &c.1, &self.p))
    }
    pub fn neg(&self, a: &R2) -> R2 {
        (negm(&a.0, &self.p), negm(&a.1, &self.p))
    }
    pub fn mul(&self, a: &R2, c: &R2) -> R2 {
        let (a0, a1) = a;
        let (c0, c1) = c;
        (
            (a0 * c0 + &self.beta * (a1 * c1)) % &self.p,
            (a0 * c1 + a1 * c0) % &self.p,
        )
    }
    pub fn conj(&self, a: &R2) -> R2 {
        (a.0.clone(), negm(&a.1, &self.p))
    }
    pub fn norm(&self, a: &R2) -> B {
        let t = (&self.beta * (&a.1 * &a.1)) % &self.p;
        subm(&mulm(&a.0, &a.0, &self.p), &t, &self.p)
    }
    pub fn inv(&self, a: &R2) -> Option<R2> {
        let n = invm(&self.norm(a), &self.p).filter(|_| !(a.0.is_zero() && a.1.is_zero()))?;
        Some((mulm(&a.0, &n, &self.p), mulm(&negm(&a.1, &self.p), &n, &self.p)))
    }
    pub fn pow(&self, a: &R2, e: &B) -> R2 {
        let mut r = self.one();
        for i in (0..e.bits()).rev() {
            r = self.mul(&r, &r);
            if e.bit(i) {
                r = self.mul(&r, a);
            }
        }
        r
    }
    /// Is a a square in Fp2? (0 counts as one)
    pub fn is_square(&self, a: &R2) -> bool {
        jacobi(&self.norm(a), &self.p) != -1
    }
    /// A square root in Fp2, by solving for the coordinates.
    pub fn sqrt(&self, a: &R2) -> Option<R2> {
        let p = &self.p;
        if a.1.is_zero() {
            if let Some(r) = sqrtm(&a.0, p) {
                return Some((r, B::zero()));
            }
            // a0 = beta * y^2
            let q = mulm(&a.0, &invm(&self.beta, p).unwrap(), p);
            return sqrtm(&q, p).map(|y| (B::zero(), y));
        }
        let n = sqrtm(&self.norm(a), p)?;
        let half = invm(&b(2), p).unwrap();
        for s in [n.clone(), negm(&n, p)] {
            let x2 = mulm(&addm(&a.0, &s, p), &half, p);
            if let Some(x) = sqrtm(&x2, p) {
                if x.is_zero() {
                    continue;
                }
                let y = mulm(&mulm(&a.1, &half, p), &invm(&x, p).unwrap(), p);
                let r = (x, y);
                if &self.mul(&r, &r) == a {
                    return Some(r);
                }
            }
        }
        None
    }

    // ---- Fp2[x]/(x^n - xi)
    pub fn nadd(&self, a: &RN, c: &RN) -> RN {
        a.iter().zip(c).map(|(x, y)| self.add(x, y)).collect()
    }
    pub fn nsub(&self, a: &RN, c: &RN) -> RN {
        a.iter().zip(c).map(|(x, y)| self.sub(x, y)).collect()
    }
    pub fn nneg(&self, a: &RN) -> RN {
        a.iter().map(|x| self.neg(x)).collect()
    }
    pub fn none(&self, n: usize) -> RN {
        let mut v = vec![self.zero(); n];
        v[0] = self.one();
        v
    }
    pub fn nzero(&self, n: usize) -> RN {
        vec![self.zero(); n]
    }
    pub fn nmul(&self, a: &RN, c: &RN) -> RN {
        let n = a.len();
        // unreduced accumulation, one reduction per coefficient
        let mut lo = vec![(B::zero(), B::zero(), B::zero()); 2 * n];
        for (i, x) in a.iter().enumerate() {
            if x.0.is_zero() && x.1.is_zero() {
                continue;
            }
            for (j, y) in c.iter().enumerate() {
                let t = &mut lo[i + j];
                t.0 += &x.0 * &y.0;
                t.1 += &x.1 * &y.1; // times beta
                t.2 += &x.0 * &y.1 + &x.1 * &y.0;
            }
        }
        let red = |t: &(B, B, B)| -> R2 { ((&t.0 + &self.beta * (&t.1 % &self.p)) % &self.p, &t.2 % &self.p) };
        (0..n)
            .map(|k| {
                let h = red(&lo[n + k]);
                self.add(&red(&lo[k]), &self.mul(&h, &self.xi))
            })
            .collect()
    }
    pub fn npow(&self, a: &RN, e: &B) -> RN {
        let mut r = self.none(a.len());
        for i in (0..e.bits()).rev() {
            r = self.nmul(&r, &r);
            if e.bit(i) {
                r = self.nmul(&r, a);
            }
        }
        r
    }
    /// xi^(i (p-1)/n) for i = 0..n: what the p-power map does to x^i.
    pub fn frob_table(&self, n: usize) -> Vec<R2> {
        let e = (&self.p - 1u32) / BigUint::from(n);
        let g = self.pow(&self.xi, &e);
        let mut v = vec![self.one()];
        for i in 1..n {
            v.push(self.mul(&v[i - 1], &g));
        }
        v
    }
    /// a^(p^k)
    pub fn nfrob(&self, a: &RN, table: &[R2], k: usize) -> RN {
        let mut a = a.clone();
        for _ in 0..k {
            a = a
                .iter()
                .zip(table)
                .map(|(x, g)| self.mul(&(x.0.clone(), negm(&x.1, &self.p)), g))
                .collect();
        }
        a
    }
}

pub fn bn256_tower() -> Tower {
    Tower::new(&hex("30644e72e131a029b85045b68181585d97816a916871ca8d3c208c16d87cfd47"), -1, (b(9), b(1)))
}
pub fn bls12381_tower() -> Tower {
    Tower::new(
        &hex("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab"),
        -1,
        (b(1), b(1)),
    )
}
/// v^3 = 57/(u+3), u^2 = -5.
pub fn pluto_tower() -> Tower {
    let p = hex("24000000000024000130e0000d7f70e4a803ca76f439266f443f9a5cda8a6c7be4a7a5fe8fadffd6a2a7e8c30006b9459ffffcd300000001");
    let mut t = Tower::new(&p, -5, (b(0), b(0)));
    let i = t.inv(&(b(3), b(1))).unwrap();
    t.xi = t.mul(&(b(57), b(0)), &i);
    t
}
