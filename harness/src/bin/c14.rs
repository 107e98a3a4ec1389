//! C14: the curve endomorphism and the GLV scalar decomposition built on it.
//! Built with --cfg verif_hooks, which re-exports the decomposition trait.
use h2c_monitor::*;
use h2c_monitor::fields::PF;
use halo2curves::ff::{PrimeField, WithSmallOrderMulGroup};
use halo2curves::CurveExt;
use num_traits::{One, Zero};

/// k in the shapes that stress the rounding of the decomposition.
fn scalar(r: &mut Rng, g: &Gen, lambda: &B, i: usize) -> B {
    let n = &g.p;
    let small = |r: &mut Rng| {
        let bits = 1 + r.below(129);
        let v = le(&r.bytes(17)) & ((B::one() << bits) - 1u32);
        if r.bool() {
            v
        } else {
            n - v % n
        }
    };
    match i % 8 {
        // short combinations k1 + k2 lambda
        0 | 1 => (small(r) + small(r) * lambda) % n,
        // multiples of lambda and of its inverse powers
        2 => (b(r.below(50) as u64) * lambda + n - b(r.below(50) as u64)) % n,
        // near fractions of n, where a rounded quotient changes
        3 => {
            let d = 1 + r.below(400) as u64;
            let m = r.below(d as usize + 1) as u64;
            ((n * m) / d + b(r.below(5) as u64)) % n
        }
        4 => {
            let v = le(&r.bytes(8)) << (64 * r.below(4));
            v % n
        }
        _ => g.val(r),
    }
}

#[cfg(verif_hooks)]
macro_rules! glv {
    ($name:expr, $c:ty, $n:expr) => {
        job(concat!($name, "/decompose"), |t: &mut Task| {
            {
                use halo2curves::CurveEndo;
                type S = <$c as CurveExt>::ScalarExt;
                let n = hex($n);
                let g = Gen::new(&n, 4, &t.conf.dict.clone());
                let lambda = le(<S as WithSmallOrderMulGroup<3>>::ZETA.to_repr().as_ref());
                t.check((&lambda * &lambda + &lambda + 1u32) % &n == B::zero(), "ZETA", || format!("{lambda:x}"));
                let mut max = (0, 0);
                for i in 0..t.n(60000) {
                    let k = scalar(&mut t.rng, &g, &lambda, i);
                    let mut rep = <S as PrimeField>::Repr::default();
                    rep.as_mut().copy_from_slice(&to_le(&k, 32));
                    let s = S::from_repr(rep).unwrap();
                    t.seen(&k, !k.is_zero());
                    t.sample(|| format!("{k:x}"));
                    let d = || format!("k={k:x}");
                    if let Some((k1, n1, k2, n2)) = t.guard("decompose_scalar", d, || <$c as CurveEndo>::decompose_scalar(&s)) {
                        // k = k1 - lambda k2, each part with its sign
                        let part = |v: u128, neg: bool| {
                            let v = from_limbs(&[v as u64, (v >> 64) as u64]) % &n;
                            if neg {
                                (&n - v) % &n
                            } else {
                                v
                            }
                        };
                        let (p1, p2) = (part(k1, n1), part(k2, n2));
                        let got = (p1 + (&n - p2) * &lambda) % &n;
                        t.check(got == k, "decompose_scalar", || format!("k={k:x} -> {k1:x} {n1} {k2:x} {n2}, which is {got:x}"));
                        t.class(match (n1, n2) {
                            (false, false) => "k1 >= 0, k2 >= 0",
                            (true, false) => "k1 < 0, k2 >= 0",
                            (false, true) => "k1 >= 0, k2 < 0",
                            _ => "k1 < 0, k2 < 0",
                        });
                        max = (max.0.max(128 - k1.leading_zeros()), max.1.max(128 - k2.leading_zeros()));
                    }
                }
                t.class_n(&format!("widest parts: {} and {} bits", max.0, max.1), 1);
            }
        })
    };
}

macro_rules! endo {
    ($t:ty, $glv:expr) => {
        job(format!("{}/endo", <$t as PC>::NAME), |t: &mut Task| {
            type C = $t;
            let w = World::<C>::new(&t.conf.dict.clone(), &mut t.rng, 24);
            let c = &w.c;
            let zeta = <<C as PC>::BF as WithSmallOrderMulGroup<3>>::ZETA.r2();
            let lambda = <<C as PC>::SF as WithSmallOrderMulGroup<3>>::ZETA.val();
            let n = t.n(400);
            for i in 0..n {
                let p = if i % 2 == 0 { w.sub_point(&mut t.rng).1 } else { w.point(&mut t.rng) };
                let pp: C = w.proj(&mut t.rng, &p);
                let d = || format!("P={} {:x?}", show(&p), pp.xyz());
                t.seen(&pp.xyz(), p.is_some());
                t.sample(d);
                if let Some(q) = t.guard("endo", d, || pp.endo()) {
                    let e = p.as_ref().map(|(x, y)| (c.mul(x, &zeta), y.clone()));
                    assert!(c.on_curve(&e));
                    t.check(q.is(c, &e), "endo", || format!("got {:x?}; {}", q.xyz(), d()));
                }
                // on the prime order subgroup it acts as a cube root of unity
                if i % 2 == 0 && i < 40 {
                    let l2 = (&lambda * &lambda) % &c.n;
                    let e = p.as_ref().map(|(x, y)| (c.mul(x, &zeta), y.clone()));
                    let by = c.smul(&lambda, &p) == e;
                    let by2 = c.smul(&l2, &p) == e;
                    t.check(if $glv { by } else { by || by2 }, "endo eigenvalue", d);
                    t.class(if p.is_none() { "identity" } else if by { "eigenvalue ZETA" } else { "eigenvalue ZETA^2" });
                }
            }
        })
    };
}

fn main() {
    let conf = Conf::from_args();
    #[cfg(verif_hooks)]
    let mut jobs = vec![
        glv!("bn256::G1", halo2curves::bn256::G1, BN_R),
        glv!("grumpkin::G1", halo2curves::grumpkin::G1, BN_Q),
        glv!("bls12381::G1", halo2curves::bls12381::G1, BLS_R),
        glv!("bls12381::G2", halo2curves::bls12381::G2, BLS_R),
        glv!("pasta::Ep", halo2curves::pasta::Ep, "40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001"),
        glv!("pasta::Eq", halo2curves::pasta::Eq, "40000000000000000000000000000000224698fc094cf91b992d30ed00000001"),
    ];
    // the decomposition is internal: without the hook it is seen only through
    // the endomorphism
    #[cfg(not(verif_hooks))]
    let mut jobs = vec![];
    jobs.extend([
        endo!(halo2curves::bn256::G1, true),
        endo!(halo2curves::bn256::G2, true),
        endo!(halo2curves::grumpkin::G1, true),
        endo!(halo2curves::bls12381::G1, true),
        endo!(halo2curves::bls12381::G2, true),
        endo!(halo2curves::secp256k1::Secp256k1, true),
        endo!(halo2curves::secq256k1::Secq256k1, true),
        endo!(halo2curves::pluto_eris::G1, true),
        endo!(halo2curves::pluto_eris::G2, true),
        endo!(halo2curves::pluto_eris::Eris, true),
    ]);
    run(conf, jobs);
}
