//! C23: published constants and their defining equations.
use h2c_monitor::fields::PF;
use h2c_monitor::tower::*;
use h2c_monitor::*;
use halo2curves as h;
use halo2curves::ff::{PrimeField, WithSmallOrderMulGroup};
use halo2curves::ff_ext::quadratic::QuadExtField;
use halo2curves::ff_ext::ExtField;
use halo2curves::group::prime::PrimeCurveAffine;
use halo2curves::group::{Curve, Group, GroupEncoding};
use halo2curves::{CurveAffine, CurveExt};
use num_traits::{One, Zero};

/// One named equation.
fn eq(t: &mut Task, name: &'static str, f: impl FnOnce() -> (bool, String)) {
    if let Some((ok, d)) = t.guard(name, || name.to_string(), f) {
        t.seen(&(name, &d), true);
        t.class(name);
        t.sample(|| format!("{name}: {d}"));
        t.check(ok, name, || format!("{name}: {d}"));
    }
}
fn is<T: PartialEq + std::fmt::Debug>(a: T, e: T) -> (bool, String) {
    let d = format!("{a:?} expected {e:?}");
    (a == e, d)
}

/// Known prime factors of p - 1 (trial division; large cofactors stay unfactored).
fn small_factors(n: &B) -> Vec<u64> {
    let mut v = vec![];
    let mut n = n.clone();
    for q in 2..60000u64 {
        if (&n % q).is_zero() {
            v.push(q);
            while (&n % q).is_zero() {
                n /= q;
            }
        }
    }
    v
}

fn prime_field<F: PF>(t: &mut Task) {
    let p = F::p();
    let m1 = &p - 1u32;
    let s = m1.trailing_zeros().unwrap();
    let odd = &m1 >> s;
    let g = b(F::GEN);
    eq(t, "MODULUS", || {
        let s = F::MODULUS;
        let (pre, digits) = s.split_at(2);
        (pre == "0x" && B::parse_bytes(digits.as_bytes(), 16) == Some(p.clone()), s.to_string())
    });
    eq(t, "NUM_BITS", || is(F::NUM_BITS as u64, p.bits()));
    eq(t, "CAPACITY", || is(F::CAPACITY as u64, p.bits() - 1));
    eq(t, "SIZE", || is((F::i_size(), F::i_limbs(), F::Repr::default().as_ref().len()), (F::L * 8, F::L, F::L * 8)));
    eq(t, "ZERO", || is((F::ZERO.val(), F::i_zero().val(), F::default().val()), (B::zero(), B::zero(), B::zero())));
    eq(t, "ONE", || is((F::ONE.val(), F::i_one().val(), F::ONE.raw()), (B::one(), B::one(), (B::one() << (64 * F::L)) % &p)));
    eq(t, "TWO_INV", || is(F::TWO_INV.val(), (&p + 1u32) >> 1));
    eq(t, "TWO_INV (library)", || is(F::TWO_INV + F::TWO_INV, F::ONE));
    eq(t, "S", || is(F::S as u64, s));
    eq(t, "MULTIPLICATIVE_GENERATOR", || is(F::MULTIPLICATIVE_GENERATOR.val(), g.clone()));
    eq(t, "MULTIPLICATIVE_GENERATOR generates", || {
        let v = F::MULTIPLICATIVE_GENERATOR.val();
        for q in small_factors(&m1) {
            if v.modpow(&(&m1 / q), &p).is_one() {
                return (false, format!("{v:x} is a power of order {q}"));
            }
        }
        (true, format!("{v:x}"))
    });
    eq(t, "ROOT_OF_UNITY", || is(F::ROOT_OF_UNITY.val(), g.modpow(&odd, &p)));
    eq(t, "ROOT_OF_UNITY order", || {
        let r = F::ROOT_OF_UNITY.val();
        (r.modpow(&(B::one() << (s - 1)), &p) == m1, format!("{r:x}"))
    });
    eq(t, "ROOT_OF_UNITY (library)", || is(F::ROOT_OF_UNITY.pow([1u64 << (F::S - 1)]), -F::ONE));
    eq(t, "ROOT_OF_UNITY_INV", || is(F::ROOT_OF_UNITY_INV.val(), invm(&g.modpow(&odd, &p), &p).unwrap()));
    eq(t, "ROOT_OF_UNITY_INV (library)", || is(F::ROOT_OF_UNITY_INV * F::ROOT_OF_UNITY, F::ONE));
    eq(t, "DELTA", || is(F::DELTA.val(), g.modpow(&(B::one() << s), &p)));
    eq(t, "ZETA", || {
        let z = F::ZETA.val();
        (z < p && !z.is_one() && z.modpow(&b(3), &p).is_one(), format!("{z:x}"))
    });
    eq(t, "ZETA (library)", || is(F::ZETA.square() + F::ZETA + F::ONE, F::ZERO));
    // constants are stored in canonical form
    for (n, x) in [
        ("TWO_INV", F::TWO_INV), ("MULTIPLICATIVE_GENERATOR", F::MULTIPLICATIVE_GENERATOR), ("ROOT_OF_UNITY", F::ROOT_OF_UNITY),
        ("ROOT_OF_UNITY_INV", F::ROOT_OF_UNITY_INV), ("DELTA", F::DELTA), ("ZETA", F::ZETA), ("ONE", F::ONE),
    ] {
        t.guard(n, || n.into(), || (x.raw() < p, x)).map(|(ok, x)| t.check(ok && F::of(&x.val()) == x, "canonical constants", || format!("{n} {x:?}")));
    }
}

fn quad<F: PF + ExtField, Q>(t: &mut Task, tw: &Tower, two: impl Fn(&Q) -> R2, nonres: R2)
where
    Q: PrimeField + WithSmallOrderMulGroup<3> + ExtField,
{
    let p = F::p();
    let (o, z) = (B::one(), B::zero());
    eq(t, "Fp2 ZERO, ONE", || is((two(&Q::ZERO), two(&Q::ONE), two(&Q::default())), ((z.clone(), z.clone()), (o.clone(), z.clone()), (z.clone(), z.clone()))));
    eq(t, "Fp2 TWO_INV", || is(two(&(Q::TWO_INV.double())), (o.clone(), z.clone())));
    eq(t, "Fp2 MODULUS", || is(B::parse_bytes(Q::MODULUS[2..].as_bytes(), 16), Some(p.clone())));
    eq(t, "Fp2 ROOT_OF_UNITY", || {
        let r = two(&Q::ROOT_OF_UNITY);
        (tw.pow(&r, &(B::one() << (Q::S - 1))) == (&p - 1u32, z.clone()), format!("{r:x?}"))
    });
    eq(t, "Fp2 ROOT_OF_UNITY_INV", || is(tw.mul(&two(&Q::ROOT_OF_UNITY), &two(&Q::ROOT_OF_UNITY_INV)), (o.clone(), z.clone())));
    eq(t, "Fp2 ZETA", || {
        let r = two(&Q::ZETA);
        (r != tw.one() && tw.pow(&r, &b(3)) == tw.one(), format!("{r:x?}"))
    });
    eq(t, "Fp NON_RESIDUE", || {
        let v = F::NON_RESIDUE.val();
        (v == tw.beta && jacobi(&v, &p) == -1, format!("{v:x}"))
    });
    eq(t, "Fp2 NON_RESIDUE", || {
        let v = two(&Q::NON_RESIDUE);
        let m = &p * &p - 1u32;
        let ok = v == nonres && v == tw.xi && tw.pow(&v, &(&m / 2u32)) != tw.one() && tw.pow(&v, &(&m / 3u32)) != tw.one();
        (ok, format!("{v:x?}"))
    });
}

/// xi^((p^i - 1) k / d) for every i of the table.
fn frob(t: &mut Task, tw: &Tower, name: &'static str, tab: Vec<R2>, k: u32, d: u32) {
    for (i, c) in tab.iter().enumerate() {
        let e = (tw.p.pow(i as u32) - 1u32) * k / d;
        let w = tw.pow(&tw.xi, &e);
        eq(t, name, || (*c == w, format!("[{i}] = {c:x?} expected {w:x?}")));
    }
}

macro_rules! curve {
    ($t:ty) => {
        |t: &mut Task| {
            type C = $t;
            type A = <$t as PC>::Aff;
            type Sc = <$t as PC>::SF;
            let c = C::reference();
            eq(t, "a", || is((C::a().r2(), <A as CurveAffine>::a().r2()), (c.a.clone(), c.a.clone())));
            eq(t, "b", || is((C::b().r2(), <A as CurveAffine>::b().r2()), (c.b.clone(), c.b.clone())));
            eq(t, "curve is not singular", || {
                let a3 = c.mul(&c.mul(&c.a, &c.a), &c.a);
                let b2 = c.mul(&c.b, &c.b);
                let d = c.add_f(&c.mul(&a3, &(b(4), B::zero())), &c.mul(&b2, &(b(27), B::zero())));
                (!CurveRef::is_zero_f(&d), format!("{d:x?}"))
            });
            eq(t, "generator", || is((<C as Group>::generator().rp(&c), C::rp_aff(&<A as PrimeCurveAffine>::generator())), (c.gen.clone(), c.gen.clone())));
            eq(t, "generator (inherent)", || is((C::generator().rp(&c), C::rp_aff(&A::generator())), (c.gen.clone(), c.gen.clone())));
            eq(t, "generator on curve", || (c.on_curve(&<C as Group>::generator().rp(&c)), String::new()));
            eq(t, "generator order", || {
                let g = <C as Group>::generator().rp(&c);
                (g.is_some() && c.smul(&Sc::p(), &g).is_none(), String::new())
            });
            eq(t, "generator is affine", || is(<C as Group>::generator().to_affine(), <A as PrimeCurveAffine>::generator()));
            eq(t, "identity", || {
                let v = [C::rp(&C::identity(), &c), C::rp(&C::default(), &c), C::rp_aff(&A::identity()), C::rp_aff(&A::default())];
                (v.iter().all(|x| x.is_none()), format!("{v:?}"))
            });
            eq(t, "order", || is(c.n.clone(), Sc::p()));
            eq(t, "Hasse bound", || {
                // |#E - q - 1| <= 2 sqrt q
                let q = if c.deg == 1 { c.p().clone() } else { c.p() * c.p() };
                let (n, q1) = (&c.n * &c.h, &q + 1u32);
                let d = if n > q1 { &n - &q1 } else { &q1 - &n };
                (&d * &d <= q * 4u32, format!("{n:x}"))
            });
            eq(t, "scalar modulus string", || is(B::parse_bytes(Sc::MODULUS[2..].as_bytes(), 16), Some(c.n.clone())));
            eq(t, "encoded sizes", || {
                let extra = (C::FLAGS == Flags::Extra) as usize;
                is((A::default().to_bytes().as_ref().len(), C::default().to_bytes().as_ref().len()), (C::FS + extra, C::FS + extra))
            });
        }
    };
}

fn main() {
    let conf = Conf::from_args();
    let mut jobs = vec![];
    macro_rules! f {
        ($t:ty) => {
            jobs.push(job(format!("field/{}", <$t as PF>::NAME), prime_field::<$t>));
        };
    }
    for_each_field!(f);
    macro_rules! c {
        ($t:ty) => {
            jobs.push(job(format!("curve/{}", <$t as PC>::NAME), curve!($t)));
        };
    }
    for_each_curve!(c);
    macro_rules! q {
        ($n:expr, $f:ty, $tw:expr, $nr:expr) => {
            jobs.push(job(format!("extension/{}", $n), |t: &mut Task| {
                quad::<$f, QuadExtField<$f>>(t, &$tw, |x| x.r2(), $nr)
            }));
        };
    }
    q!("bn256", h::bn256::Fq, bn256_tower(), (b(9), b(1)));
    q!("bls12381", h::bls12381::Fq, bls12381_tower(), (b(1), b(1)));
    q!("pluto", h::pluto_eris::Fp, pluto_tower(), pluto_tower().xi);
    jobs.push(job("frobenius/bn256", |t: &mut Task| {
        let tw = bn256_tower();
        let f = |x: &[h::bn256::Fq2]| x.iter().map(|v| v.r2()).collect::<Vec<_>>();
        frob(t, &tw, "FROBENIUS_COEFF_FQ6_C1", f(&h::bn256::FROBENIUS_COEFF_FQ6_C1), 1, 3);
        frob(t, &tw, "FROBENIUS_COEFF_FQ6_C2", f(&h::bn256::FROBENIUS_COEFF_FQ6_C2), 2, 3);
        frob(t, &tw, "FROBENIUS_COEFF_FQ12_C1", f(&h::bn256::FROBENIUS_COEFF_FQ12_C1), 1, 6);
    }));
    jobs.push(job("frobenius/bls12381", |t: &mut Task| {
        let tw = bls12381_tower();
        let f = |x: &[h::bls12381::Fq2]| x.iter().map(|v| v.r2()).collect::<Vec<_>>();
        frob(t, &tw, "FROBENIUS_COEFF_FQ6_C1", f(&h::bls12381::FROBENIUS_COEFF_FQ6_C1), 1, 3);
        frob(t, &tw, "FROBENIUS_COEFF_FQ6_C2", f(&h::bls12381::FROBENIUS_COEFF_FQ6_C2), 2, 3);
        frob(t, &tw, "FROBENIUS_COEFF_FQ12_C1", f(&h::bls12381::FROBENIUS_COEFF_FQ12_C1), 1, 6);
    }));
    jobs.push(job("families", |t: &mut Task| {
        // Barreto-Naehrig: p and r as polynomials of x
        let x = b(h::bn256::BN_X);
        let poly = |x: &B, c: [u32; 5]| c.iter().fold(B::zero(), |a, k| a * x + *k);
        eq(t, "BN_X defines p and r", || {
            is((poly(&x, [36, 36, 24, 6, 1]), poly(&x, [36, 36, 18, 6, 1])), (h::bn256::Fq::p(), h::bn256::Fr::p()))
        });
        eq(t, "SIX_U_PLUS_2_NAF", || {
            let mut v = num_bigint::BigInt::from(0);
            for (i, d) in h::bn256::SIX_U_PLUS_2_NAF.iter().enumerate() {
                v += num_bigint::BigInt::from(*d) << i;
            }
            is(v, num_bigint::BigInt::from(&x * 6u32 + 2u32))
        });
        // cycles: the order of one curve is the modulus of the other
        let m = |s: &str| B::parse_bytes(s[2..].as_bytes(), 16).unwrap();
        eq(t, "cycle bn256 grumpkin", || {
            is(
                (m(h::bn256::Fr::MODULUS), m(h::bn256::Fq::MODULUS)),
                (m(<<h::grumpkin::G1 as CurveExt>::Base as PrimeField>::MODULUS), m(<<h::grumpkin::G1 as CurveExt>::ScalarExt as PrimeField>::MODULUS)),
            )
        });
        eq(t, "cycle secp256k1 secq256k1", || {
            is(
                (m(h::secp256k1::Fq::MODULUS), m(h::secp256k1::Fp::MODULUS)),
                (m(<<h::secq256k1::Secq256k1 as CurveExt>::Base as PrimeField>::MODULUS), m(<<h::secq256k1::Secq256k1 as CurveExt>::ScalarExt as PrimeField>::MODULUS)),
            )
        });
        eq(t, "cycle pluto eris", || {
            is(
                (m(h::pluto_eris::Fq::MODULUS), m(h::pluto_eris::Fp::MODULUS)),
                (m(<<h::pluto_eris::Eris as CurveExt>::Base as PrimeField>::MODULUS), m(<<h::pluto_eris::Eris as CurveExt>::ScalarExt as PrimeField>::MODULUS)),
            )
        });
    }));
    run(conf, jobs);
}
