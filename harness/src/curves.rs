//! The curves under test with their published parameters, a reference group
//! law over big integers, and point generators.
use crate::big::*;
use crate::fields::PF;
use crate::gen::Gen;
use crate::run::{cut, Rng};
use crate::tower::*;
use halo2curves::ff::Field;
use halo2curves::ff_ext::quadratic::QuadExtField;
use halo2curves::serde::SerdeObject;
use num_traits::{One, Zero};
use std::fmt::Debug;

/// An affine reference point; None is the identity.
pub type RP = Option<(R2, R2)>;

// ----------------------------------------------------- reference group law

/// y^2 = x^3 + a x + b over Fp (deg 1, second coordinates zero) or Fp2.
#[derive(Clone)]
pub struct CurveRef {
    pub f: Tower,
    pub deg: usize,
    pub a: R2,
    pub b: R2,
    pub n: B,
    /// cofactor
    pub h: B,
    pub gen: RP,
}

impl CurveRef {
    pub fn p(&self) -> &B {
        &self.f.p
    }
    pub fn mul(&self, x: &R2, y: &R2) -> R2 {
        if self.deg == 1 {
            (mulm(&x.0, &y.0, self.p()), B::zero())
        } else {
            self.f.mul(x, y)
        }
    }
    pub fn inv(&self, x: &R2) -> Option<R2> {
        if self.deg == 1 {
            if x.0.is_zero() {
                return None;
            }
            invm(&x.0, self.p()).map(|v| (v, B::zero()))
        } else {
            self.f.inv(x)
        }
    }
    pub fn sqrt(&self, x: &R2) -> Option<R2> {
        if self.deg == 1 {
            sqrtm(&x.0, self.p()).map(|v| (v, B::zero()))
        } else {
            self.f.sqrt(x)
        }
    }
    pub fn is_square(&self, x: &R2) -> bool {
        if self.deg == 1 {
            jacobi(&x.0, self.p()) != -1
        } else {
            self.f.is_square(x)
        }
    }
    pub fn add_f(&self, x: &R2, y: &R2) -> R2 {
        self.f.add(x, y)
    }
    pub fn sub_f(&self, x: &R2, y: &R2) -> R2 {
        self.f.sub(x, y)
    }
    pub fn neg_f(&self, x: &R2) -> R2 {
        self.f.neg(x)
    }
    pub fn is_zero_f(x: &R2) -> bool {
        x.0.is_zero() && x.1.is_zero()
    }
    /// x^3 + a x + b
    pub fn g(&self, x: &R2) -> R2 {
        let x3 = self.mul(&self.mul(x, x), x);
        let ax = self.mul(&self.a, x);
        self.add_f(&self.add_f(&x3, &ax), &self.b)
    }
    pub fn on_curve(&self, p: &RP) -> bool {
        match p {
            None => true,
            Some((x, y)) => self.mul(y, y) == self.g(x),
        }
    }
    /// Is (X : Y : Z) a point of the projective curve?
    pub fn on_curve_proj(&self, v: &[R2; 3]) -> bool {
        let [x, y, z] = v;
        if Self::is_zero_f(x) && Self::is_zero_f(y) && Self::is_zero_f(z) {
            return false;
        }
        let lhs = self.mul(z, &self.mul(y, y));
        let x3 = self.mul(&self.mul(x, x), x);
        let z2 = self.mul(z, z);
        let axz2 = self.mul(&self.a, &self.mul(x, &z2));
        let bz3 = self.mul(&self.b, &self.mul(&z2, z));
        lhs == self.add_f(&self.add_f(&x3, &axz2), &bz3)
    }
    pub fn neg(&self, p: &RP) -> RP {
        p.as_ref().map(|(x, y)| (x.clone(), self.neg_f(y)))
    }
    pub fn add(&self, p: &RP, q: &RP) -> RP {
        let (x1, y1) = match p {
            None => return q.clone(),
            Some(v) => v,
        };
        let (x2, y2) = match q {
            None => return p.clone(),
            Some(v) => v,
        };
        let l = if x1 == x2 {
            if y1 != y2 || Self::is_zero_f(y1) {
                return None;
            }
            let x2_ = self.mul(x1, x1);
            let num = self.add_f(&self.add_f(&self.add_f(&x2_, &x2_), &x2_), &self.a);
            self.mul(&num, &self.inv(&self.add_f(y1, y1)).unwrap())
        } else {
            self.mul(&self.sub_f(y2, y1), &self.inv(&self.sub_f(x2, x1)).unwrap())
        };
        let x3 = self.sub_f(&self.sub_f(&self.mul(&l, &l), x1), x2);
        let y3 = self.sub_f(&self.mul(&l, &self.sub_f(x1, &x3)), y1);
        Some((x3, y3))
    }
    pub fn dbl(&self, p: &RP) -> RP {
        self.add(p, p)
    }

    // Jacobian coordinates (X/Z^2, Y/Z^3); Z = 0 is the identity.
    fn jdbl(&self, p: &[R2; 3]) -> [R2; 3] {
        let [x, y, z] = p;
        if Self::is_zero_f(z) || Self::is_zero_f(y) {
            return [self.f.one(), self.f.one(), self.f.zero()];
        }
        let y2 = self.mul(y, y);
        let s = self.mul(x, &y2);
        let s2 = self.add_f(&s, &s);
        let s4 = self.add_f(&s2, &s2);
        let x2 = self.mul(x, x);
        let mut m = self.add_f(&self.add_f(&x2, &x2), &x2);
        if !Self::is_zero_f(&self.a) {
            let z2 = self.mul(z, z);
            m = self.add_f(&m, &self.mul(&self.a, &self.mul(&z2, &z2)));
        }
        let x3 = self.sub_f(&self.sub_f(&self.mul(&m, &m), &s4), &s4);
        let y4 = self.mul(&y2, &y2);
        let y4_2 = self.add_f(&y4, &y4);
        let y4_4 = self.add_f(&y4_2, &y4_2);
        let y4_8 = self.add_f(&y4_4, &y4_4);
        let y3 = self.sub_f(&self.mul(&m, &self.sub_f(&s4, &x3)), &y4_8);
        let yz = self.mul(y, z);
        [x3, y3, self.add_f(&yz, &yz)]
    }
    fn jadd_aff(&self, p: &[R2; 3], q: &(R2, R2)) -> [R2; 3] {
        let [x1, y1, z1] = p;
        if Self::is_zero_f(z1) {
            return [q.0.clone(), q.1.clone(), self.f.one()];
        }
        let z2 = self.mul(z1, z1);
        let u2 = self.mul(&q.0, &z2);
        let s2 = self.mul(&q.1, &self.mul(&z2, z1));
        let h = self.sub_f(&u2, x1);
        let r = self.sub_f(&s2, y1);
        if Self::is_zero_f(&h) {
            if Self::is_zero_f(&r) {
                return self.jdbl(p);
            }
            return [self.f.one(), self.f.one(), self.f.zero()];
        }
        let h2 = self.mul(&h, &h);
        let h3 = self.mul(&h2, &h);
        let v = self.mul(x1, &h2);
        let x3 = self.sub_f(&self.sub_f(&self.sub_f(&self.mul(&r, &r), &h3), &v), &v);
        let y3 = self.sub_f(&self.mul(&r, &self.sub_f(&v, &x3)), &self.mul(y1, &h3));
        [x3, y3, self.mul(z1, &h)]
    }
    /// k * p for any integer k >= 0.
    pub fn smul(&self, k: &B, p: &RP) -> RP {
        let q = p.as_ref()?;
        let mut r = [self.f.one(), self.f.one(), self.f.zero()];
        for i in (0..k.bits()).rev() {
            r = self.jdbl(&r);
            if k.bit(i) {
                r = self.jadd_aff(&r, q);
            }
        }
        if Self::is_zero_f(&r[2]) {
            return None;
        }
        let zi = self.inv(&r[2]).unwrap();
        let zi2 = self.mul(&zi, &zi);
        Some((self.mul(&r[0], &zi2), self.mul(&r[1], &self.mul(&zi2, &zi))))
    }
    pub fn smul_i(&self, k: i64, p: &RP) -> RP {
        let q = self.smul(&b(k.unsigned_abs()), p);
        if k < 0 {
            self.neg(&q)
        } else {
            q
        }
    }
    pub fn is_prime_order(&self) -> bool {
        self.h.is_one()
    }
    pub fn in_subgroup(&self, p: &RP) -> bool {
        self.h.is_one() || self.smul(&self.n, p).is_none()
    }
}

// ------------------------------------------------------------ base fields

pub trait BaseF: Field + SerdeObject + Debug {
    fn r2(&self) -> R2;
    fn from_r2(v: &R2) -> Self;
}
macro_rules! base1 {
    ($($t:ty),*) => { $(
        impl BaseF for $t {
            fn r2(&self) -> R2 { (self.val(), B::zero()) }
            fn from_r2(v: &R2) -> Self { <$t as PF>::of(&v.0) }
        }
        impl BaseF for QuadExtField<$t> where QuadExtField<$t>: Field + SerdeObject + Debug {
            fn r2(&self) -> R2 { (self.c0().val(), self.c1().val()) }
            fn from_r2(v: &R2) -> Self { QuadExtField::new(<$t as PF>::of(&v.0), <$t as PF>::of(&v.1)) }
        }
    )* };
}
base1!(
    halo2curves::bn256::Fq,
    halo2curves::bls12381::Fq,
    halo2curves::pluto_eris::Fp
);
macro_rules! base_only1 {
    ($($t:ty),*) => { $(
        impl BaseF for $t {
            fn r2(&self) -> R2 { (self.val(), B::zero()) }
            fn from_r2(v: &R2) -> Self { <$t as PF>::of(&v.0) }
        }
    )* };
}
base_only1!(
    halo2curves::bn256::Fr,
    halo2curves::secp256k1::Fp,
    halo2curves::secp256k1::Fq,
    halo2curves::secp256r1::Fp,
    halo2curves::pluto_eris::Fq
);

// ------------------------------------------------------------- the curves

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Flags {
    /// a leading byte: bit 7 sign, bit 6 identity
    Extra,
    /// in the top byte of x: bit 7 sign, bit 6 identity
    TwoSpare,
    /// in the top byte of x: bit 7 compressed, bit 6 identity, bit 5 sign
    ThreeSpare,
}

/// A projective point type of the library.  The monitors themselves are
/// written in macros over the concrete types, so this only carries data and
/// conversions.
pub trait PC: Copy + Send + Sync + 'static {
    type BF: BaseF;
    type SF: PF;
    type Aff: Copy + Send + Sync + 'static;
    const NAME: &'static str;
    const FLAGS: Flags;
    const BE: bool;
    /// size of one encoded base field element
    const FS: usize;
    /// the standard sign is the parity of y; otherwise lexicographic order
    const STD_SIGN: bool;
    const HAS_HASH: bool;
    fn reference() -> CurveRef;
    fn xyz(&self) -> [R2; 3];
    fn from_xyz(v: &[R2; 3]) -> Self;
    fn xy(a: &Self::Aff) -> (R2, R2);
    fn from_xy_raw(v: &(R2, R2)) -> Self::Aff;

    fn aff(p: &RP) -> Self::Aff {
        match p {
            None => Self::from_xy_raw(&((B::zero(), B::zero()), (B::zero(), B::zero()))),
            Some(v) => Self::from_xy_raw(v),
        }
    }
    fn rp_aff(a: &Self::Aff) -> RP {
        let (x, y) = Self::xy(a);
        if CurveRef::is_zero_f(&x) && CurveRef::is_zero_f(&y) {
            None
        } else {
            Some((x, y))
        }
    }
    /// The reference point a projective triple stands for.
    fn rp(&self, c: &CurveRef) -> RP {
        let [x, y, z] = self.xyz();
        let zi = c.inv(&z)?;
        Some((c.mul(&x, &zi), c.mul(&y, &zi)))
    }
    /// Does the triple stand for the reference point p?  (No inversion.)
    fn is(&self, c: &CurveRef, p: &RP) -> bool {
        let [x, y, z] = self.xyz();
        match p {
            None => CurveRef::is_zero_f(&z) && CurveRef::is_zero_f(&x) && !CurveRef::is_zero_f(&y),
            Some((px, py)) => !CurveRef::is_zero_f(&z) && x == c.mul(px, &z) && y == c.mul(py, &z),
        }
    }
    /// A projective representation scaled by s != 0.
    fn proj(c: &CurveRef, p: &RP, s: &R2) -> Self {
        match p {
            None => Self::from_xyz(&[c.f.zero(), s.clone(), c.f.zero()]),
            Some((x, y)) => Self::from_xyz(&[c.mul(x, s), c.mul(y, s), s.clone()]),
        }
    }
    fn sc(k: &B) -> Self::SF {
        Self::SF::of(&(k % Self::SF::p()))
    }
}

macro_rules! pc {
    ($t:ty, $a:path, $bf:ty, $sf:ty, $name:expr, $flags:expr, $be:expr, $fs:expr, $std:expr, $hash:expr, $r:expr) => {
        impl PC for $t {
            type BF = $bf;
            type SF = $sf;
            type Aff = $a;
            const NAME: &'static str = $name;
            const FLAGS: Flags = $flags;
            const BE: bool = $be;
            const FS: usize = $fs;
            const STD_SIGN: bool = $std;
            const HAS_HASH: bool = $hash;
            fn reference() -> CurveRef {
                $r
            }
            fn xyz(&self) -> [R2; 3] {
                [self.x.r2(), self.y.r2(), self.z.r2()]
            }
            fn from_xyz(v: &[R2; 3]) -> Self {
                Self { x: <$bf>::from_r2(&v[0]), y: <$bf>::from_r2(&v[1]), z: <$bf>::from_r2(&v[2]) }
            }
            fn xy(a: &$a) -> (R2, R2) {
                (a.x.r2(), a.y.r2())
            }
            fn from_xy_raw(v: &(R2, R2)) -> $a {
                use $a as A_;
                A_ { x: <$bf>::from_r2(&v.0), y: <$bf>::from_r2(&v.1) }
            }
        }
    };
}

fn r1(v: B) -> R2 {
    (v, B::zero())
}
fn prime_curve(p: &str, a: i64, bb: &str, n: &str, h: B, gx: &str, gy: &str) -> CurveRef {
    let p = hex(p);
    let a = if a < 0 { &p - b((-a) as u64) } else { b(a as u64) };
    let bb = match bb.strip_prefix('-') {
        Some(x) => &p - hex(x),
        None => hex(bb),
    };
    let f = Tower::new(&p, 0, (B::zero(), B::zero()));
    let neg = |s: &str| match s.strip_prefix('-') {
        Some(x) => &p - hex(x),
        None => hex(s),
    };
    CurveRef { f, deg: 1, a: r1(a), b: r1(bb), n: hex(n), h, gen: Some((r1(neg(gx)), r1(neg(gy)))) }
}
fn dec(s: &str) -> B {
    B::parse_bytes(s.as_bytes(), 10).unwrap()
}

pub const BN_Q: &str = "30644e72e131a029b85045b68181585d97816a916871ca8d3c208c16d87cfd47";
pub const BN_R: &str = "30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001";
pub const BLS_Q: &str = "1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab";
pub const BLS_R: &str = "73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001";
pub const K1_P: &str = "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f";
pub const K1_N: &str = "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141";
pub const R1_P: &str = "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff";
pub const R1_N: &str = "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551";
pub const PL_P: &str = "24000000000024000130e0000d7f70e4a803ca76f439266f443f9a5cda8a6c7be4a7a5fe8fadffd6a2a7e8c30006b9459ffffcd300000001";
pub const PL_Q: &str = "24000000000024000130e0000d7f70e4a803ca76f439266f443f9a5c7a8a6c7be4a775fe8e177fd69ca7e85d60050af41ffffcd300000001";

pub fn bn256_g1() -> CurveRef {
    prime_curve(BN_Q, 0, "3", BN_R, b(1), "1", "2")
}
pub const PASTA_P: &str = "40000000000000000000000000000000224698fc094cf91b992d30ed00000001";
pub const PASTA_Q: &str = "40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001";
/// The curves of the pasta_curves crate, which the library re-exports and extends.
pub fn pallas() -> CurveRef {
    prime_curve(PASTA_P, 0, "5", PASTA_Q, b(1), "-1", "2")
}
pub fn vesta() -> CurveRef {
    prime_curve(PASTA_Q, 0, "5", PASTA_P, b(1), "-1", "2")
}
/// EIP-197
pub fn bn256_g2() -> CurveRef {
    let f = bn256_tower();
    let i = f.inv(&f.xi).unwrap();
    let bb = f.mul(&(b(3), b(0)), &i);
    let h = hex(BN_Q) * 2u32 - hex(BN_R);
    CurveRef {
        a: f.zero(),
        b: bb,
        deg: 2,
        n: hex(BN_R),
        h,
        gen: Some((
            (
                dec("10857046999023057135944570762232829481370756359578518086990519993285655852781"),
                dec("11559732032986387107991004021392285783925812861821192530917403151452391805634"),
            ),
            (
                dec("8495653923123431417604973247489272438418190587263600148770280649306958101930"),
                dec("4082367875863433681332203403145435568316851327593401208105741076214120093531"),
            ),
        )),
        f,
    }
}
pub fn grumpkin() -> CurveRef {
    let mut c = prime_curve(BN_R, 0, "-11", BN_Q, b(1), "1", "2");
    c.gen = Some((r1(b(1)), r1(dec("17631683881184975370165255887551781615748388533673675138860"))));
    c
}
pub fn secp256k1() -> CurveRef {
    prime_curve(
        K1_P,
        0,
        "7",
        K1_N,
        b(1),
        "79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798",
        "483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8",
    )
}
pub fn secp256r1() -> CurveRef {
    prime_curve(
        R1_P,
        -3,
        "5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b",
        R1_N,
        b(1),
        "6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296",
        "4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5",
    )
}
/// The reverse curve of secp256k1; generator as in the library.
pub fn secq256k1() -> CurveRef {
    prime_curve(
        K1_N,
        0,
        "7",
        K1_P,
        b(1),
        "76c39f5585cb160eb6b06c87a2ce32e23134e45a097781a6a24288e37702eda6",
        "3ffc646c7b2918b5dc2d265a8e82a7f7d18983d26e8dc055a4120ddad952677f",
    )
}
pub fn bls12381_g1() -> CurveRef {
    prime_curve(
        BLS_Q,
        0,
        "4",
        BLS_R,
        hex("396c8c005555e1568c00aaab0000aaab"),
        "17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb",
        "08b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1",
    )
}
pub fn bls12381_g2() -> CurveRef {
    let f = bls12381_tower();
    CurveRef {
        a: f.zero(),
        b: (b(4), b(4)),
        deg: 2,
        n: hex(BLS_R),
        h: hex("5d543a95414e7f1091d50792876a202cd91de4547085abaa68a205b2e5a7ddfa628f1cb4d9e82ef21537e293a6691ae1616ec6e786f0c70cf1c38e31c7238e5"),
        gen: Some((
            (
                hex("024aa2b2f08f0a91260805272dc51051c6e47ad4fa403b02b4510b647ae3d1770bac0326a805bbefd48056c8c121bdb8"),
                hex("13e02b6052719f607dacd3a088274f65596bd0d09920b61ab5da61bbdc7f5049334cf11213945d57e5ac7d055d042b7e"),
            ),
            (
                hex("0ce5d527727d6e118cc9cdc6da2e351aadfd9baa8cbdd3a76d429a695160d12c923ac9cc3baca289e193548608b82801"),
                hex("0606c4a02ea734cc32acd2b02bc28b99cb3e287e85a763af267492ab572e99ab3f370d275cec1da1aaa9075ff05f79be"),
            ),
        )),
        f,
    }
}
pub fn pluto_g1() -> CurveRef {
    prime_curve(PL_P, 0, "39", PL_Q, b(1), "-2", "7")
}
pub fn eris() -> CurveRef {
    prime_curve(PL_Q, 0, "39", PL_P, b(1), "-2", "7")
}
pub fn pluto_g2() -> CurveRef {
    let f = pluto_tower();
    CurveRef {
        a: f.zero(),
        b: (b(3), b(1)),
        deg: 2,
        n: hex(PL_Q),
        h: hex(PL_P) * 2u32 - hex(PL_Q),
        gen: Some((
            (
                hex("13576c81faf3a13fd815d0e9bd54b845ee935948b84498b27ca972bfb93722e223c9e276a4ebe7559cfc86dd865f07d64f2b5fe6556f9066"),
                hex("142164cb875db0465e5092f9380f44f555243d011699b7393029f2d201554727aeb383298fdf5847b9b3dff01bbe8d63fe7c781a8fd7bf21"),
            ),
            (
                hex("2239f7408ead478c58e88d4df1e7418c42fdbb92e64ba85aa4dc17d7dace3f32eb471c004db774bfe78574aca67b3898cd1b78ad106ab9fe"),
                hex("1260b04d51136590dbb53dfd7caf450aeca714555bbe4f079ca65d97eb28fc9fc697b4e10bbcd9e0539ef82a731fb88ed49e3c080e6d945d"),
            ),
        )),
        f,
    }
}

use halo2curves as h;
pc!(h::bn256::G1, h::bn256::G1Affine, h::bn256::Fq, h::bn256::Fr, "bn256::G1", Flags::TwoSpare, false, 32, true, true, bn256_g1());
pc!(h::bn256::G2, h::bn256::G2Affine, h::bn256::Fq2, h::bn256::Fr, "bn256::G2", Flags::TwoSpare, false, 64, true, true, bn256_g2());
pc!(h::grumpkin::G1, h::grumpkin::G1Affine, h::bn256::Fr, h::bn256::Fq, "grumpkin::G1", Flags::TwoSpare, false, 32, true, true, grumpkin());
pc!(h::secp256k1::Secp256k1, h::secp256k1::Secp256k1Affine, h::secp256k1::Fp, h::secp256k1::Fq, "secp256k1", Flags::Extra, false, 32, true, true, secp256k1());
pc!(h::secp256r1::Secp256r1, h::secp256r1::Secp256r1Affine, h::secp256r1::Fp, h::secp256r1::Fq, "secp256r1", Flags::Extra, false, 32, true, true, secp256r1());
pc!(h::secq256k1::Secq256k1, h::secq256k1::Secq256k1Affine, h::secp256k1::Fq, h::secp256k1::Fp, "secq256k1", Flags::Extra, false, 32, true, true, secq256k1());
pc!(h::bls12381::G1, h::bls12381::G1Affine, h::bls12381::Fq, h::bls12381::Fr, "bls12381::G1", Flags::ThreeSpare, true, 48, false, true, bls12381_g1());
pc!(h::bls12381::G2, h::bls12381::G2Affine, h::bls12381::Fq2, h::bls12381::Fr, "bls12381::G2", Flags::ThreeSpare, true, 96, false, true, bls12381_g2());
pc!(h::pluto_eris::G1, h::pluto_eris::G1Affine, h::pluto_eris::Fp, h::pluto_eris::Fq, "pluto::G1", Flags::TwoSpare, false, 56, true, true, pluto_g1());
pc!(h::pluto_eris::G2, h::pluto_eris::G2Affine, QuadExtField<h::pluto_eris::Fp>, h::pluto_eris::Fq, "pluto::G2", Flags::TwoSpare, false, 112, true, false, pluto_g2());
pc!(h::pluto_eris::Eris, h::pluto_eris::ErisAffine, h::pluto_eris::Fq, h::pluto_eris::Fp, "eris", Flags::TwoSpare, false, 56, true, true, eris());

#[macro_export]
macro_rules! for_each_curve {
    ($m:ident) => {
        $m!(halo2curves::bn256::G1);
        $m!(halo2curves::bn256::G2);
        $m!(halo2curves::grumpkin::G1);
        $m!(halo2curves::secp256k1::Secp256k1);
        $m!(halo2curves::secp256r1::Secp256r1);
        $m!(halo2curves::secq256k1::Secq256k1);
        $m!(halo2curves::bls12381::G1);
        $m!(halo2curves::bls12381::G2);
        $m!(halo2curves::pluto_eris::G1);
        $m!(halo2curves::pluto_eris::G2);
        $m!(halo2curves::pluto_eris::Eris);
    };
}

// ------------------------------------------------------- point generation

/// Everything a curve task needs: the reference, value generators and a pool.
pub struct World<C: PC> {
    pub c: CurveRef,
    /// base field coordinates
    pub g: Gen,
    /// scalars
    pub s: Gen,
    /// in the prime order subgroup, with known logarithms
    pub pool: Vec<(B, RP)>,
    /// on the curve, but (on curves with a cofactor) outside of the subgroup
    pub wild: Vec<RP>,
    /// points of small order dividing the cofactor, if any are known
    pub small: Vec<RP>,
    _c: std::marker::PhantomData<C>,
}

impl<C: PC> World<C> {
    pub fn new(dict: &[B], r: &mut Rng, pool: usize) -> World<C> {
        let c = C::reference();
        let limbs = if c.deg == 1 { C::FS / 8 } else { C::FS / 16 };
        let g = Gen::new(c.p(), limbs, dict);
        let s = Gen::new(&c.n, C::SF::L, dict);
        let mut w = World { c, g, s, pool: vec![], wild: vec![], small: vec![], _c: std::marker::PhantomData };
        let gen = w.c.gen.clone();
        let one = B::one();
        let mut ks: Vec<B> = vec![one.clone(), b(2), b(3), b(4), b(5), &w.c.n - 1u32, &w.c.n - 2u32, (&w.c.n + 1u32) >> 1, (&w.c.n - 1u32) >> 1];
        while ks.len() < pool {
            let k = w.s.val(r);
            if !k.is_zero() {
                ks.push(k);
            }
        }
        for k in ks {
            let p = w.c.smul(&k, &gen);
            w.pool.push((k, p));
        }
        // arbitrary points of the curve, found from structured x
        let target = if w.c.is_prime_order() { 6 } else { 8 };
        let mut tries = 0;
        while w.wild.len() < target && tries < 200 {
            tries += 1;
            let x = w.coord(r);
            if let Some(y) = w.c.sqrt(&w.c.g(&x)) {
                w.wild.push(Some((x, y)));
            }
        }
        for x in 0..12u64 {
            let x = (b(x), B::zero());
            if let Some(y) = w.c.sqrt(&w.c.g(&x)) {
                w.wild.push(Some((x, y)));
            }
        }
        if w.c.deg == 2 && CurveRef::is_zero_f(&w.c.a) {
            // points whose y lies in the base field, or is a multiple of u
            let p = w.c.p().clone();
            let (mut real, mut imag) = (0, 0);
            for x1 in 1..200u64 {
                let x1 = b(x1);
                // the u-coefficient of x^3 + b vanishes
                let num = addm(&w.c.b.1, &mulm(&mulm(&x1, &mulm(&x1, &x1, &p), &p), &w.c.f.beta, &p), &p);
                let x02 = mulm(&negm(&num, &p), &invm(&mulm(&b(3), &x1, &p), &p).unwrap(), &p);
                let Some(x0) = sqrtm(&x02, &p) else { continue };
                let x = (x0, x1);
                let Some(y) = w.c.sqrt(&w.c.g(&x)) else { continue };
                let n = if y.1.is_zero() { &mut real } else { &mut imag };
                if *n < 3 {
                    *n += 1;
                    w.wild.push(Some((x, y)));
                }
            }
            assert!(real == 3 && imag == 3);
        }
        if !w.c.is_prime_order() {
            // x = 0 has order three on these curves, when it is there
            if let Some(y) = w.c.sqrt(&w.c.g(&w.c.f.zero())) {
                w.small.push(Some((w.c.f.zero(), y)));
            }
            // project away the subgroup
            let n = w.c.n.clone();
            let q = w.c.smul(&n, &w.wild[0].clone());
            if q.is_some() {
                w.small.push(q.clone());
            }
            // points of small prime order
            let mut rest = w.c.h.clone();
            for l in [3u64, 11, 13, 23, 73, 2713, 10069, 10177, 11953, 143653, 262069, 859267, 1426393, 5864401, 52437899] {
                let mut e = 0;
                while (&rest % l).is_zero() {
                    rest /= l;
                    e += 1;
                }
                if e == 0 || w.small.len() > 7 {
                    continue;
                }
                let cof = &w.c.h / b(l).pow(e);
                for p in w.wild.clone().iter().take(3) {
                    let mut q = w.c.smul(&(&n * &cof), p);
                    while q.is_some() {
                        let s = w.c.smul(&b(l), &q);
                        if s.is_none() {
                            break;
                        }
                        q = s;
                    }
                    if q.is_some() {
                        w.small.push(q);
                        break;
                    }
                }
            }
        }
        w
    }
    /// A structured base field element.
    pub fn coord(&self, r: &mut Rng) -> R2 {
        let a = self.g.val(r);
        let bb = if self.c.deg == 1 {
            B::zero()
        } else if r.one_in(4) {
            b(r.below(3) as u64)
        } else {
            self.g.val(r)
        };
        (a, bb)
    }
    /// A non-zero scale factor for projective representations.
    pub fn scale(&self, r: &mut Rng) -> R2 {
        if r.one_in(3) {
            return self.c.f.one();
        }
        loop {
            let s = self.coord(r);
            if !CurveRef::is_zero_f(&s) {
                return s;
            }
        }
    }
    pub fn point(&self, r: &mut Rng) -> RP {
        match r.below(16) {
            0 => None,
            1 | 2 if !self.wild.is_empty() => {
                let p = r.pick(&self.wild).clone();
                if r.bool() {
                    self.c.neg(&p)
                } else {
                    p
                }
            }
            3 if !self.small.is_empty() => r.pick(&self.small).clone(),
            _ => {
                let p = r.pick(&self.pool).1.clone();
                if r.one_in(4) {
                    self.c.neg(&p)
                } else {
                    p
                }
            }
        }
    }
    /// A point of the prime order subgroup with its logarithm.
    pub fn sub_point(&self, r: &mut Rng) -> (B, RP) {
        if r.one_in(12) {
            return (B::zero(), None);
        }
        let (k, p) = r.pick(&self.pool).clone();
        if r.one_in(4) {
            ((&self.c.n - k) % &self.c.n, self.c.neg(&p))
        } else {
            (k, p)
        }
    }
    /// A second operand, often related to p.
    pub fn related(&self, r: &mut Rng, p: &RP) -> RP {
        match r.below(12) {
            0 | 1 => p.clone(),
            2 | 3 => self.c.neg(p),
            4 => self.c.dbl(p),
            5 => self.c.neg(&self.c.dbl(p)),
            6 => {
                // same y, different x (curves with a = 0)
                match p {
                    Some((x, y)) if CurveRef::is_zero_f(&self.c.a) => {
                        let z = self.cube_root_of_unity();
                        Some((self.c.mul(x, &(z, B::zero())), y.clone()))
                    }
                    _ => self.point(r),
                }
            }
            _ => self.point(r),
        }
    }
    pub fn cube_root_of_unity(&self) -> B {
        let p = self.c.p();
        let e = (p - 1u32) / 3u32;
        let mut g = 2u64;
        loop {
            let z = b(g).modpow(&e, p);
            if !z.is_one() {
                return z;
            }
            g += 1;
        }
    }
    /// A representation of p that shares coordinates with the operand `o`.
    pub fn proj_like(&self, r: &mut Rng, p: &RP, o: &C) -> C {
        let [x, y, z] = o.xyz();
        let c = &self.c;
        let s = match (r.below(8), p) {
            (0 | 1, _) => z,
            (2, _) => c.neg_f(&z),
            (3, Some((px, _))) => c.inv(px).map(|i| c.mul(&x, &i)).unwrap_or(z),
            (4, Some((_, py))) => c.inv(py).map(|i| c.mul(&y, &i)).unwrap_or(z),
            (5, Some(_)) => {
                // coordinates in another place
                let t = r.pick(&[x, y, z]).clone();
                t
            }
            _ => return self.proj(r, p),
        };
        if CurveRef::is_zero_f(&s) {
            return self.proj(r, p);
        }
        C::proj(c, p, &s)
    }
    pub fn proj(&self, r: &mut Rng, p: &RP) -> C {
        let s = self.scale(r);
        C::proj(&self.c, p, &s)
    }
}

pub fn show(p: &RP) -> String {
    match p {
        None => "O".into(),
        Some((x, y)) => {
            if x.1.is_zero() && y.1.is_zero() {
                format!("({:x}, {:x})", x.0, y.0)
            } else {
                format!("({:x}+{:x}u, {:x}+{:x}u)", x.0, x.1, y.0, y.1)
            }
        }
    }
}

/// The untwist-Frobenius-twist endomorphism of a sextic twist:
/// (x, y) -> (conj(x) gx, conj(y) gy) with gx = t^((p-1)/3), gy = t^((p-1)/2),
/// t = xi for a D twist and 1/xi for an M twist.
pub struct Psi {
    gx: R2,
    gy: R2,
}
impl Psi {
    pub fn new(c: &CurveRef, d_twist: bool) -> Psi {
        let t = if d_twist { c.f.xi.clone() } else { c.f.inv(&c.f.xi).unwrap() };
        let p1 = c.p() - 1u32;
        Psi { gx: c.f.pow(&t, &(&p1 / 3u32)), gy: c.f.pow(&t, &(&p1 / 2u32)) }
    }
    pub fn apply(&self, c: &CurveRef, p: &RP) -> RP {
        let (x, y) = p.as_ref()?;
        Some((c.mul(&c.f.conj(x), &self.gx), c.mul(&c.f.conj(y), &self.gy)))
    }
}

/// The published cofactor-clearing map of a curve.
pub fn clear_ref(name: &str, c: &CurveRef, p: &RP) -> RP {
    match name {
        "bls12381::G1" => c.smul(&hex("d201000000010001"), p),
        "bls12381::G2" => {
            // h_eff of RFC 9380, 8.8.2
            let h = hex("bc69f08f2ee75b3584c6a0ea91b352888e2a8e9145ad7689986ff031508ffe1329c2f178731db956d82bf015d1212b02ec0ec69d7477c1ae954cbc06689f6a359894c0adebbf6b4e8020005aaa95551");
            c.smul(&h, p)
        }
        "bn256::G2" => {
            // Fuentes-Castaneda, Knapp, Rodriguez-Henriquez
            let x = c.smul(&b(4965661367192848881), p);
            let s = Psi::new(c, true);
            let psi = |q: &RP| s.apply(c, q);
            let t = c.add(&x, &psi(&c.smul_i(3, &x)));
            let t = c.add(&t, &psi(&psi(&x)));
            c.add(&t, &psi(&psi(&psi(p))))
        }
        "pluto::G2" => c.smul(&c.h, p),
        _ => p.clone(),
    }
}

/// Unwraps a constant-time option of the library.
pub fn opt<T>(o: subtle::CtOption<T>) -> Option<T> {
    o.into()
}
pub fn must<T>(o: subtle::CtOption<T>, what: &str) -> T {
    cut(Option::<T>::from(o), what)
}
