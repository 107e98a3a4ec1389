//! Small workloads for the undefined-behaviour interpreter (no assembly, no
//! references to compare with beyond identities of the library itself).
use halo2curves as h;
use halo2curves::ff::{BatchInvert, Field, FromUniformBytes, PrimeField};
use halo2curves::ff_ext::Legendre;
use halo2curves::fft::best_fft;
use halo2curves::group::prime::PrimeCurveAffine;
use halo2curves::group::{Curve, Group, GroupEncoding, UncompressedEncoding};
use halo2curves::msm::{msm_best, msm_parallel, msm_serial};
use halo2curves::serde::SerdeObject;
use halo2curves::CurveExt;
use std::time::Instant;

fn step<R>(n: &mut u64, name: &str, f: impl FnOnce() -> R) -> R {
    let t = Instant::now();
    println!("MIRI-BEGIN {name}");
    let r = f();
    *n += 1;
    println!("MIRI-STEP {name} {:.1}s", t.elapsed().as_secs_f64());
    r
}

fn some<T>(x: subtle::CtOption<T>) -> T {
    Option::from(x).expect("a value")
}

// a wrong result panics here, which the driver tells from a panic of the
// library: wrong results are for the other monitors
macro_rules! field {
    ($n:ident, $d:ident, $t:ty, $u:expr) => {for i in 0..$d {{
        let name = stringify!($t);
        let x = -<$t>::from(5u64 + i) * <$t>::from((i * i) << 20 | 1);
        let y = <$t>::from_u128(u128::MAX - 3 - ((i as u128) << 60));
        step($n, &format!("{name} ring"), || {
            let v = [x + y, x - y, x * y, x.square(), x.double(), -x, x.pow_vartime([3u64])];
            assert_eq!(v[0] * v[1], v[3] - y.square());
        });
        step($n, &format!("{name} invert"), || assert_eq!(some(x.invert()) * x, <$t>::ONE));
        step($n, &format!("{name} legendre"), || assert_eq!(x.square().legendre(), 1));
        step($n, &format!("{name} codec"), || {
            assert_eq!(some(<$t>::from_repr(x.to_repr())), x);
            assert_eq!(<$t>::from_raw_bytes(&x.to_raw_bytes()).unwrap(), x);
            let mut v = vec![];
            x.write_raw(&mut v).unwrap();
            assert_eq!(<$t>::read_raw(&mut &v[..]).unwrap(), x);
            let _ = <$t>::from_uniform_bytes(&[0xff; $u]);
            assert!(x > <$t>::ONE);
            let j = serde_json::to_string(&x).unwrap();
            assert_eq!(serde_json::from_str::<$t>(&j).unwrap(), x);
        });
        step($n, &format!("{name} batch invert"), || {
            let mut l = vec![x, <$t>::ZERO, y];
            l.batch_invert();
            assert_eq!(l[0] * x, <$t>::ONE);
        });
        step($n, &format!("{name} fft"), || {
            let mut a: Vec<$t> = (0..2).map(|i| <$t>::from(i as u64)).collect();
            best_fft(&mut a, -<$t>::ONE, 1);
        });
    }}};
}
macro_rules! curve {
    ($n:ident, $d:ident, $t:ty, $s:ty) => {for i in 0..$d {{
        let name = stringify!($t);
        type A = <$t as CurveExt>::AffineExt;
        let g = <$t>::generator();
        let p = (0..i).fold(g.double() + g, |a, _| a.double() - g);
        step($n, &format!("{name} group law"), || {
            assert_eq!(p - g, g + g);
            let mut a = [A::identity(); 3];
            <$t as Curve>::batch_normalize(&[p, <$t>::identity(), g], &mut a);
            assert_eq!(a[0].to_curve() + a[2], g.double().double());
        });
        let a = step($n, &format!("{name} affine"), || p.to_affine());
        step($n, &format!("{name} codec"), || {
            assert_eq!(some(A::from_uncompressed_unchecked(&a.to_uncompressed())), a);
            assert_eq!(A::from_raw_bytes(&a.to_raw_bytes()).unwrap(), a);
            let e = a.to_bytes();
            let _ = A::identity().to_bytes();
            e
        });
        step($n, &format!("{name} msm"), || {
            let s = [<$s>::from(3u64), <$s>::ZERO, <$s>::from(1000u64)];
            let b = [a, a, -a];
            let mut acc = <$t>::identity();
            msm_serial(&s, &b, &mut acc);
            acc
        });
    }}};
}

fn main() {
    let part: String = std::env::args().nth(1).unwrap_or_default();
    let d: u64 = std::env::args().nth(2).and_then(|x| x.parse().ok()).unwrap_or(1);
    let mut n0 = 0u64;
    let n = &mut n0;
    rayon::ThreadPoolBuilder::new().num_threads(2).build_global().unwrap();
    if part.contains('f') {
        field!(n, d, h::bn256::Fq, 64);
        field!(n, d, h::bls12381::Fq, 96);
        field!(n, d, h::secp256r1::Fp, 64);
        field!(n, d, h::pluto_eris::Fp, 112);
    }
    if part.contains('g') {
        field!(n, d, h::bn256::Fr, 64);
        field!(n, d, h::bls12381::Fr, 64);
        field!(n, d, h::secp256k1::Fp, 48);
        field!(n, d, h::secp256k1::Fq, 64);
        field!(n, d, h::secp256r1::Fq, 48);
        field!(n, d, h::pluto_eris::Fq, 72);
    }
    if part.contains('c') {
        curve!(n, d, h::bn256::G1, h::bn256::Fr);
        curve!(n, d, h::bls12381::G1, h::bls12381::Fr);
    }
    if part.contains('d') {
        curve!(n, d, h::secp256k1::Secp256k1, h::secp256k1::Fq);
        curve!(n, d, h::secp256r1::Secp256r1, h::secp256r1::Fq);
        curve!(n, d, h::grumpkin::G1, h::grumpkin::Fr);
        curve!(n, d, h::pluto_eris::G1, h::pluto_eris::Fq);
        curve!(n, d, h::bn256::G2, h::bn256::Fr);
    }
    if part.contains('t') {
        // towers
        use halo2curves::ff_ext::{quadratic::QuadSparseMul, ExtField};
        let x = h::bn256::Fq2::new(h::bn256::Fq::from(3), -h::bn256::Fq::ONE);
        let y = h::bn256::Fq6::new(x, x.square(), h::bn256::Fq2::ONE);
        let z = h::bn256::Fq12::new(y, y + y);
        step(n, "bn256 Fq2", || assert_eq!(some(x.invert()) * x, h::bn256::Fq2::ONE));
        step(n, "bn256 Fq2 sqrt", || assert_eq!(some::<h::bn256::Fq2>(x.square().sqrt()).square(), x.square()));
        step(n, "bn256 Fq6", || assert_eq!(some(y.invert()) * y, h::bn256::Fq6::ONE));
        step(n, "bn256 Fq12", || {
            let mut a = z;
            a.frobenius_map(5);
            a.conjugate();
            h::bn256::Fq12::mul_by_014(&mut a, &x, &x, &x);
            (a.square() * z, a.cyclotomic_square())
        });
        step(n, "bn256 Fq2 codec", || {
            assert_eq!(some(h::bn256::Fq2::from_repr(x.to_repr())), x);
            assert_eq!(h::bn256::Fq2::from_raw_bytes(&x.to_raw_bytes()), Some(x));
        });
        step(n, "bls12381 hash", || h::bls12381::G1::hash_to_curve("a")(b"b"));
        step(n, "bn256 hash", || h::bn256::G1::hash_to_curve("a")(b"b"));
    }
    if part.contains('m') {
        let g = h::bn256::G1Affine::generator();
        let s: Vec<_> = (0..40u64).map(h::bn256::Fr::from).collect();
        let b = vec![g; 40];
        let x = step(n, "bn256 msm_parallel", || msm_parallel(&s, &b));
        let y = step(n, "bn256 msm_best", || msm_best(&s, &b));
        assert_eq!(x, y);
        step(n, "bn256 fft with worker threads", || {
            let mut a: Vec<_> = (0..8u64).map(h::bn256::Fr::from).collect();
            let w = h::bn256::Fr::ROOT_OF_UNITY.pow_vartime([1u64 << 25]);
            best_fft(&mut a, w, 3);
        });
    }
    println!("MIRI-DONE {n0}");
}
