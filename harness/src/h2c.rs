//! Reference hash-to-curve over big integers, written from RFC 9380.
use crate::big::*;
use crate::curves::*;
use crate::iso::*;
use crate::tower::R2;
use num_traits::{One, Zero};
use sha2::{Digest, Sha256};

type Coeffs = &'static [(&'static str, &'static str)];

pub enum Map {
    Svdw { z: R2, c3: R2 },
    /// Z, A', B' and the isogeny to the curve, if the curve itself has a or b zero
    Sswu { z: R2, a: R2, b: R2, iso: Option<[Vec<R2>; 4]> },
}

pub struct SuiteRef {
    pub name: &'static str,
    pub suite: &'static str,
    pub c: CurveRef,
    /// bytes per coordinate drawn from the expander
    pub l: usize,
    pub map: Map,
}

/// 5.3.1 and 5.3.3, with SHA-256.
pub fn expand_xmd(msg: &[u8], dst: &[u8], len: usize) -> Vec<u8> {
    let dst: Vec<u8> = if dst.len() > 255 {
        Sha256::digest([b"H2C-OVERSIZE-DST-", dst].concat()).to_vec()
    } else {
        dst.to_vec()
    };
    let mut dstp = dst;
    dstp.push(dstp.len() as u8);
    let ell = (len + 31) / 32;
    assert!(ell <= 255);
    let b0 = Sha256::digest([&[0u8; 64][..], msg, &[(len >> 8) as u8, len as u8, 0], &dstp].concat()).to_vec();
    let mut bi = Sha256::digest([&b0[..], &[1], &dstp].concat()).to_vec();
    let mut out = bi.clone();
    for i in 2..=ell {
        let x: Vec<u8> = b0.iter().zip(&bi).map(|(a, b)| a ^ b).collect();
        bi = Sha256::digest([&x[..], &[i as u8], &dstp].concat()).to_vec();
        out.extend_from_slice(&bi);
    }
    out.truncate(len);
    out
}

pub fn sgn0(v: &R2) -> bool {
    v.0.bit(0) || (v.0.is_zero() && v.1.bit(0))
}

fn poly(c: &CurveRef, k: &[R2], x: &R2) -> R2 {
    let mut r = c.f.zero();
    for a in k.iter().rev() {
        r = c.add_f(&c.mul(&r, x), a);
    }
    r
}

impl SuiteRef {
    pub fn hash_to_field(&self, prefix: &[u8], msg: &[u8]) -> [R2; 2] {
        let dst = [prefix, self.suite.as_bytes()].concat();
        let m = self.c.deg;
        let o = expand_xmd(msg, &dst, 2 * m * self.l);
        let e = |i: usize| {
            if i < 2 * m {
                be(&o[i * self.l..(i + 1) * self.l]) % self.c.p()
            } else {
                B::zero()
            }
        };
        if m == 1 {
            [(e(0), B::zero()), (e(1), B::zero())]
        } else {
            [(e(0), e(1)), (e(2), e(3))]
        }
    }
    pub fn map(&self, u: &R2) -> RP {
        let c = &self.c;
        let inv0 = |v: &R2| c.inv(v).unwrap_or(c.f.zero());
        let fix = |y: R2| if sgn0(&y) != sgn0(u) { c.neg_f(&y) } else { y };
        match &self.map {
            Map::Svdw { z, c3 } => {
                let one = c.f.one();
                let gz = c.g(z);
                let two_inv = c.inv(&c.add_f(&one, &one)).unwrap();
                let z2 = c.mul(z, z);
                let three_z2 = c.add_f(&z2, &c.add_f(&z2, &z2));
                let mut a4 = c.add_f(&c.a, &c.a);
                a4 = c.add_f(&a4, &a4);
                let tmp = c.add_f(&three_z2, &a4);
                let mut g4 = c.add_f(&gz, &gz);
                g4 = c.add_f(&g4, &g4);
                let c2 = c.neg_f(&c.mul(z, &two_inv));
                let c4 = c.neg_f(&c.mul(&g4, &c.inv(&tmp).unwrap()));
                let t = c.mul(&c.mul(u, u), &gz);
                let plus = c.add_f(&one, &t);
                let minus = c.sub_f(&one, &t);
                let tv3 = inv0(&c.mul(&plus, &minus));
                let tv4 = c.mul(&c.mul(u, &minus), &c.mul(&tv3, c3));
                let x1 = c.sub_f(&c2, &tv4);
                let x2 = c.add_f(&c2, &tv4);
                let w = c.mul(&c.mul(&plus, &plus), &tv3);
                let x3 = c.add_f(z, &c.mul(&c4, &c.mul(&w, &w)));
                let x = if c.is_square(&c.g(&x1)) {
                    x1
                } else if c.is_square(&c.g(&x2)) {
                    x2
                } else {
                    x3
                };
                let y = c.sqrt(&c.g(&x)).expect("one of the three is a square");
                Some((x, fix(y)))
            }
            Map::Sswu { z, a, b, iso } => {
                let g = |x: &R2| c.add_f(&c.add_f(&c.mul(&c.mul(x, x), x), &c.mul(a, x)), b);
                let one = c.f.one();
                let zu2 = c.mul(z, &c.mul(u, u));
                let tv = inv0(&c.add_f(&c.mul(&zu2, &zu2), &zu2));
                let x1 = if CurveRef::is_zero_f(&tv) {
                    c.mul(b, &c.inv(&c.mul(z, a)).unwrap())
                } else {
                    c.mul(&c.neg_f(&c.mul(b, &c.inv(a).unwrap())), &c.add_f(&one, &tv))
                };
                let x2 = c.mul(&zu2, &x1);
                let (x, y) = match c.sqrt(&g(&x1)) {
                    Some(y) => (x1, y),
                    None => {
                        let y = c.sqrt(&g(&x2)).expect("one of the two is a square");
                        (x2, y)
                    }
                };
                let y = fix(y);
                match iso {
                    None => Some((x, y)),
                    Some([xn, xd, yn, yd]) => {
                        let xd = c.inv(&poly(c, xd, &x))?;
                        let yd = c.inv(&poly(c, yd, &x))?;
                        Some((c.mul(&poly(c, xn, &x), &xd), c.mul(&y, &c.mul(&poly(c, yn, &x), &yd))))
                    }
                }
            }
        }
    }
    pub fn hash(&self, prefix: &[u8], msg: &[u8]) -> RP {
        let [u0, u1] = self.hash_to_field(prefix, msg);
        clear_ref(self.name, &self.c, &self.c.add(&self.map(&u0), &self.map(&u1)))
    }

    fn svdw(name: &'static str, suite: &'static str, c: CurveRef, l: usize) -> SuiteRef {
        let z = c.f.one();
        let gz = c.g(&z);
        let z2 = c.mul(&z, &z);
        let mut a4 = c.add_f(&c.a, &c.a);
        a4 = c.add_f(&a4, &a4);
        let tmp = c.add_f(&c.add_f(&z2, &c.add_f(&z2, &z2)), &a4);
        let mut c3 = c.sqrt(&c.neg_f(&c.mul(&gz, &tmp))).expect("Z is admissible");
        if sgn0(&c3) {
            c3 = c.neg_f(&c3);
        }
        // the conditions on Z of 6.6.1
        let half = c.inv(&c.add_f(&c.f.one(), &c.f.one())).unwrap();
        assert!(!CurveRef::is_zero_f(&gz) && !CurveRef::is_zero_f(&tmp));
        assert!(c.is_square(&gz) || c.is_square(&c.g(&c.neg_f(&c.mul(&z, &half)))));
        SuiteRef { name, suite, c, l, map: Map::Svdw { z, c3 } }
    }
    fn sswu(name: &'static str, suite: &'static str, c: CurveRef, l: usize, z: R2, a: R2, b: R2, iso: Option<[Coeffs; 4]>) -> SuiteRef {
        let h2 = |t: &(&str, &str)| (hex(t.0), hex(t.1));
        let iso = iso.map(|v| v.map(|k| k.iter().map(h2).collect::<Vec<R2>>()));
        let s = SuiteRef { name, suite, map: Map::Sswu { z, a: a.clone(), b: b.clone(), iso }, c, l };
        // the isogeny maps E' into E: checked on more points than its degree
        // as a rational function leaves room for
        let c = &s.c;
        let mut good = 0;
        for i in 1..300u64 {
            let u = if c.deg == 1 { (crate::big::b(i), B::zero()) } else { (crate::big::b(i), crate::big::b(i * i + 1)) };
            let p = s.map(&u);
            assert!(c.on_curve(&p), "reference map leaves the curve");
            good += p.is_some() as usize;
            if good > 60 {
                break;
            }
        }
        s
    }

    pub fn of(name: &str) -> Option<SuiteRef> {
        let one = B::one;
        let zero = B::zero;
        let i = |c: &CurveRef, v: i64| (if v < 0 { c.p() - crate::big::b(v.unsigned_abs()) } else { crate::big::b(v as u64) }, B::zero());
        Some(match name {
            "bn256::G1" => Self::svdw("bn256::G1", "BN254G1_XMD:SHA-256_SVDW_RO_", bn256_g1(), 48),
            "bn256::G2" => Self::svdw("bn256::G2", "BN254G2_XMD:SHA-256_SVDW_RO_", bn256_g2(), 48),
            "grumpkin::G1" => Self::svdw("grumpkin::G1", "GRUMPKIN_XMD:SHA-256_SVDW_RO_", grumpkin(), 48),
            "secq256k1" => Self::svdw("secq256k1", "secq256k1_XMD:SHA-256_SVDW_RO_", secq256k1(), 48),
            "pluto::G1" => Self::svdw("pluto::G1", "pluto_XMD:SHA-256_SVDW_RO_", pluto_g1(), 72),
            "eris" => Self::svdw("eris", "eris_XMD:SHA-256_SVDW_RO_", eris(), 72),
            "secp256k1" => {
                let c = secp256k1();
                let (z, a, b) = (
                    i(&c, -11),
                    (hex("3f8731abdd661adca08a5558f0f5d272e953d363cb6f0e5d405447c01a444533"), zero()),
                    i(&c, 1771),
                );
                Self::sswu("secp256k1", "secp256k1_XMD:SHA-256_SSWU_RO_", c, 48, z, a, b, Some([K1_XNUM, K1_XDEN, K1_YNUM, K1_YDEN]))
            }
            "secp256r1" => {
                let c = secp256r1();
                let (z, a, b) = (i(&c, -10), c.a.clone(), c.b.clone());
                Self::sswu("secp256r1", "P256_XMD:SHA-256_SSWU_RO_", c, 48, z, a, b, None)
            }
            "bls12381::G1" => {
                let c = bls12381_g1();
                let z = i(&c, 11);
                let a = hex("144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d");
                let b = hex("12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0");
                Self::sswu("bls12381::G1", "BLS12381G1_XMD:SHA-256_SSWU_RO_", c, 64, z, (a, zero()), (b, zero()), Some([ISO11_XNUM, ISO11_XDEN, ISO11_YNUM, ISO11_YDEN]))
            }
            "bls12381::G2" => {
                let c = bls12381_g2();
                let z = (c.p() - 2u32, c.p() - one());
                let (a, b) = ((zero(), crate::big::b(240)), (crate::big::b(1012), crate::big::b(1012)));
                Self::sswu("bls12381::G2", "BLS12381G2_XMD:SHA-256_SSWU_RO_", c, 64, z, a, b, Some([ISO3_XNUM, ISO3_XDEN, ISO3_YNUM, ISO3_YDEN]))
            }
            _ => return None,
        })
    }
}

/// RFC 9380, appendix J: the x coordinates for the message "abc" under the
/// domain prefix "QUUX-V01-CS02-with-" (first coefficient).
pub const VECTORS: &[(&str, &str)] = &[
    ("bls12381::G1", "03567bc5ef9c690c2ab2ecdf6a96ef1c139cc0b2f284dca0a9a7943388a49a3aee664ba5379a7655d3c68900be2f6903"),
    ("bls12381::G2", "02c2d18e033b960562aae3cab37a27ce00d80ccd5ba4b7fe0e7a210245129dbec7780ccc7954725f4168aff2787776e6"),
    ("secp256r1", "0bb8b87485551aa43ed54f009230450b492fead5f1cc91658775dac4a3388a0f"),
    ("secp256k1", "3377e01eab42db296b512293120c6cee72b6ecf9f9205760bd9ff11fb3cb2c4b"),
];
