//! Adversarial generators of integers, limbs and field elements.
use crate::big::*;
use crate::fields::PF;
use crate::run::{fresh, Rng};
use num_traits::ToPrimitive;
use num_traits::{One, Zero};

/// One 64-bit limb with carry-provoking structure. `m` is the modulus limb.
pub fn limb(r: &mut Rng, m: u64) -> u64 {
    if !fresh().is_empty() && r.one_in(12) {
        let w = r.pick(fresh());
        let v = w.iter_u64_digits().next().unwrap_or(0);
        return match r.below(6) {
            0 => v.wrapping_add(1),
            1 => v.wrapping_sub(1),
            2 => !v,
            3 => w.to_u64().filter(|w| *w < 64).map(|w| r.u64() >> w).unwrap_or(v),
            _ => v,
        };
    }
    match r.below(16) {
        0 | 1 => 0,
        2 | 3 => u64::MAX,
        4 => 1,
        5 => u64::MAX - r.below(4) as u64,
        6 => 1 << 63,
        7 => (1 << 63) - 1,
        8 => m,
        9 => m.wrapping_add(1 + r.below(2) as u64),
        10 => m.wrapping_sub(1 + r.below(2) as u64),
        11 => *r.pick(&[0xffffffff, 0x100000000, 0xffffffff00000000, 0xfffffffe, 0x100000001, 0x7fffffff, 0x80000000]),
        12 => 1u64 << r.below(64),
        13 => !(1u64 << r.below(64)),
        14 => r.below(256) as u64,
        _ => r.u64(),
    }
}

/// Values around which carry and reduction logic changes behaviour.
pub struct Gen {
    pub p: B,
    pub l: usize,
    pub pl: Vec<u64>,
    pub rinv: B,
    pub r: B,
    pub special: Vec<B>,
    pub dict: Vec<B>,
}

impl Gen {
    pub fn new(p: &B, l: usize, dict: &[B]) -> Gen {
        let one = B::one();
        let r = (&one << (64 * l)) % p;
        let rinv = invm(&r, p).unwrap();
        let mut special = vec![
            B::zero(),
            one.clone(),
            b(2),
            b(3),
            p - 1u32,
            p - 2u32,
            p >> 1,
            (p >> 1) + 1u32,
            (p >> 1) - 1u32,
            p >> 2,
            (p >> 2) + 1u32,
            r.clone(),
            p - &r,
            mulm(&r, &r, p),
            rinv.clone(),
            p - &rinv,
            p / 3u32,
            (p / 3u32) + 1u32,
        ];
        for k in 0..(64 * l) {
            let e = &one << k;
            if &e < p {
                special.push(e.clone());
                special.push(p - &e);
                if k > 1 {
                    special.push(&e - 1u32);
                    special.push((&e + 1u32) % p);
                }
            }
            // and their images from the Montgomery domain
            if k % 16 == 0 || k % 64 == 63 {
                special.push(mulm(&(&e % p), &rinv, p));
                special.push(mulm(&((p - (&e % p)) % p), &rinv, p));
            }
        }
        let dict = dict.iter().filter(|d| d.bits() <= (64 * l) as u64).cloned().collect();
        Gen { p: p.clone(), l, pl: limbs(p, l), rinv, r, special, dict }
    }
    pub fn of<F: PF>(dict: &[B]) -> Gen {
        Gen::new(&F::p(), F::L, dict)
    }
    /// The value whose Montgomery form is v.
    pub fn unmont(&self, v: &B) -> B {
        mulm(v, &self.rinv, &self.p)
    }
    pub fn mont(&self, v: &B) -> B {
        mulm(v, &self.r, &self.p)
    }
    /// Any L-limb integer (may be >= p).
    pub fn wide(&self, r: &mut Rng) -> B {
        match r.below(8) {
            0 => {
                // around a multiple of p
                let k = r.below(20) as u64;
                let d = r.below(5) as u64;
                let m = &self.p * k;
                let v = if r.bool() { m + d } else if m >= b(d) { m - d } else { m };
                if v.bits() <= (64 * self.l) as u64 {
                    v
                } else {
                    (B::one() << (64 * self.l)) - 1u32 - d
                }
            }
            1..=4 => {
                let v: Vec<u64> = (0..self.l).map(|i| limb(r, self.pl[i])).collect();
                from_limbs(&v)
            }
            _ => le(&r.bytes(8 * self.l)),
        }
    }
    pub fn uniform(&self, r: &mut Rng) -> B {
        le(&r.bytes(8 * self.l + 8)) % &self.p
    }
    /// A canonical value with structure in the plain or Montgomery domain.
    pub fn val(&self, r: &mut Rng) -> B {
        if !fresh().is_empty() && r.one_in(12) {
            let d = r.pick(fresh()).clone();
            let d = match r.below(6) {
                0 => d + 1u32,
                1 if !d.is_zero() => d - 1u32,
                2 => d << (64 * r.below(self.l)),
                3 if d < b(64 * self.l as u64) => (B::one() << d.to_usize().unwrap()) + r.below(3),
                _ => d,
            } % &self.p;
            return match r.below(4) {
                0 => mulm(&d, &self.rinv, &self.p),
                1 => (&self.p - d) % &self.p,
                _ => d,
            };
        }
        let v = match r.below(20) {
            0..=4 => return self.uniform(r),
            5 | 6 => r.pick(&self.special).clone(),
            7 => b(r.below(300) as u64),
            8 => &self.p - 1u32 - r.below(300) as u64,
            9..=11 => {
                // structured limbs, plain domain
                let mut v: Vec<u64> = (0..self.l).map(|i| limb(r, self.pl[i])).collect();
                self.clamp_top(r, &mut v);
                from_limbs(&v)
            }
            12..=15 => {
                // structured limbs, Montgomery domain
                let mut v: Vec<u64> = (0..self.l).map(|i| limb(r, self.pl[i])).collect();
                self.clamp_top(r, &mut v);
                mulm(&(from_limbs(&v) % &self.p), &self.rinv, &self.p)
            }
            16 => {
                // sparse / dense bit patterns
                let mut v = B::zero();
                for _ in 0..1 + r.below(4) {
                    v |= B::one() << r.below(self.p.bits() as usize);
                }
                if r.bool() {
                    &self.p - (v % &self.p)
                } else {
                    v
                }
            }
            17 => {
                // short values
                let n = 1 + r.below(self.l * 8);
                le(&r.bytes(n))
            }
            18 => {
                if self.dict.is_empty() {
                    return self.uniform(r);
                }
                let d = r.pick(&self.dict).clone() % &self.p;
                match r.below(4) {
                    0 => mulm(&d, &self.rinv, &self.p),
                    1 => &self.p - d,
                    _ => d,
                }
            }
            _ => {
                let s = r.pick(&self.special).clone();
                let d = b(r.below(3) as u64);
                if r.bool() {
                    s + d
                } else {
                    &self.p + s - d
                }
            }
        };
        v % &self.p
    }
    fn clamp_top(&self, r: &mut Rng, v: &mut [u64]) {
        // keep most structured values below p without a reduction, which
        // would destroy the structure of the low limbs
        let t = self.l - 1;
        if v[t] > self.pl[t] && !r.one_in(8) {
            v[t] = match r.below(4) {
                0 => self.pl[t],
                1 => self.pl[t].wrapping_sub(1),
                2 => 0,
                _ => v[t] % (self.pl[t].max(1)),
            };
        }
    }
    /// A second operand, often related to the first.
    pub fn related(&self, r: &mut Rng, a: &B) -> B {
        let p = &self.p;
        match r.below(14) {
            0 => a.clone(),
            1 => negm(a, p),
            2 => addm(&negm(a, p), &b(1), p),
            3 => subm(&negm(a, p), &b(1), p),
            4 => addm(a, &b(1), p),
            5 => invm(a, p).unwrap_or_default(),
            6 => {
                // product hits a structured target, in either domain
                let t = self.val(r);
                invm(a, p).map(|i| mulm(&t, &i, p)).unwrap_or(t)
            }
            7 => {
                // sum hits a structured target
                let t = self.val(r);
                subm(&t, a, p)
            }
            8 => mulm(a, a, p),
            9 => {
                // some limbs in common, in either domain
                let mont = r.bool();
                let x = limbs(&if mont { self.mont(a) } else { a.clone() }, self.l);
                let o = r.u64();
                let flip = r.below(3);
                let mut v: Vec<u64> = x
                    .iter()
                    .enumerate()
                    .map(|(i, x)| match (o >> i & 1, flip) {
                        (0, _) => *x,
                        (_, 0) => !*x,
                        (_, 1) => x.wrapping_add(1 + r.below(2) as u64).wrapping_sub(2 * (r.bool() as u64)),
                        _ => limb(r, self.pl[i]),
                    })
                    .collect();
                self.clamp_top(r, &mut v);
                let v = from_limbs(&v) % p;
                if mont {
                    self.unmont(&v)
                } else {
                    v
                }
            }
            _ => self.val(r),
        }
    }
}

/// Builds a field element of the given value by one of several routes.
pub fn make<F: PF>(g: &Gen, r: &mut Rng, v: &B) -> F {
    match r.below(3) {
        0 => F::of(v),
        1 => crate::run::cut(F::from_raw_bytes(&to_le(&mulm(v, &g.r, &g.p), F::size())), "canonical Montgomery limbs rejected"),
        _ => F::i_from_raw(&limbs(v, F::L)),
    }
}
