//! The prime fields under test, with published parameters (independent of the
//! constants in the code under test) and uniform access to their API.
use crate::big::*;
use halo2curves::ff::{Field, FromUniformBytes, PrimeField, PrimeFieldBits, WithSmallOrderMulGroup};
use halo2curves::ff_ext::Legendre;
use halo2curves::serde::{Repr, SerdeObject};
use std::fmt::Debug;

pub trait PF:
    PrimeField
    + WithSmallOrderMulGroup<3>
    + SerdeObject
    + Legendre
    + PrimeFieldBits
    + std::hash::Hash
    + Ord
    + From<bool>
    + Debug
    + Send
    + Sync
    + 'static
    + serde::Serialize
    + for<'a> serde::Deserialize<'a>
{
    const NAME: &'static str;
    /// Published modulus and multiplicative generator.
    const P_HEX: &'static str;
    const GEN: u64;
    /// 64-bit limbs of the representation.
    const L: usize;
    const BIG_ENDIAN: bool;
    /// Input sizes of the wide reductions.
    const UNIFORM: &'static [usize];
    fn p() -> B {
        hex(Self::P_HEX)
    }
    fn size() -> usize {
        Self::L * 8
    }
    // inherent API of the concrete types
    fn i_from_bytes(b: &[u8]) -> Option<Self>;
    fn i_to_bytes(&self) -> Vec<u8>;
    fn i_from_raw(l: &[u64]) -> Self;
    fn i_lex_largest(&self) -> bool;
    fn i_add(&self, o: &Self) -> Self;
    fn i_sub(&self, o: &Self) -> Self;
    fn i_mul(&self, o: &Self) -> Self;
    fn i_neg(&self) -> Self;
    fn i_double(&self) -> Self;
    fn i_square(&self) -> Self;
    fn i_zero() -> Self;
    fn i_one() -> Self;
    fn i_size() -> usize;
    fn i_limbs() -> usize;
    fn uniform(bytes: &[u8]) -> Self;
    fn repr_from(b: &[u8]) -> Self::Repr;
    fn into_repr_value(self) -> Vec<u8>;
    fn into_repr_ref(&self) -> Vec<u8>;

    // conversions used by the oracle
    fn val(&self) -> B {
        le(self.to_repr().as_ref())
    }
    fn of(n: &B) -> Self {
        let mut r = Self::Repr::default();
        r.as_mut().copy_from_slice(&to_le(n, Self::size()));
        crate::run::cut(Option::from(Self::from_repr(r)), "canonical value rejected by from_repr")
    }
    /// The internal (Montgomery) integer.
    fn raw(&self) -> B {
        le(&self.to_raw_bytes())
    }
}

macro_rules! pf {
    ($t:ty, $name:expr, $p:expr, $gen:expr, $l:expr, $be:expr, [$($u:expr),*]) => {
        impl PF for $t {
            const NAME: &'static str = $name;
            const P_HEX: &'static str = $p;
            const GEN: u64 = $gen;
            const L: usize = $l;
            const BIG_ENDIAN: bool = $be;
            const UNIFORM: &'static [usize] = &[$($u),*];
            fn i_from_bytes(b: &[u8]) -> Option<Self> {
                let a: &[u8; $l * 8] = b.try_into().unwrap();
                Option::from(<$t>::from_bytes(a))
            }
            fn i_to_bytes(&self) -> Vec<u8> { self.to_bytes().to_vec() }
            fn i_from_raw(l: &[u64]) -> Self { <$t>::from_raw(l.try_into().unwrap()) }
            fn i_lex_largest(&self) -> bool { self.lexicographically_largest().into() }
            #[inline]
            fn i_add(&self, o: &Self) -> Self { <$t>::add(self, o) }
            #[inline]
            fn i_sub(&self, o: &Self) -> Self { <$t>::sub(self, o) }
            #[inline]
            fn i_mul(&self, o: &Self) -> Self { <$t>::mul(self, o) }
            #[inline]
            fn i_neg(&self) -> Self { <$t>::neg(self) }
            #[inline]
            fn i_double(&self) -> Self { <$t>::double(self) }
            #[inline]
            fn i_square(&self) -> Self { <$t>::square(self) }
            fn i_zero() -> Self { <$t>::zero() }
            fn i_one() -> Self { <$t>::one() }
            fn i_size() -> usize { <$t>::SIZE }
            fn i_limbs() -> usize { <$t>::NUM_LIMBS }
            fn uniform(bytes: &[u8]) -> Self {
                match bytes.len() {
                    $( $u => <$t as FromUniformBytes<$u>>::from_uniform_bytes(bytes.try_into().unwrap()), )*
                    n => unreachable!("uniform {n}"),
                }
            }
            fn repr_from(b: &[u8]) -> Self::Repr { <[u8; $l * 8]>::try_from(b).unwrap().into() }
            fn into_repr_value(self) -> Vec<u8> { let r: Repr<{ $l * 8 }> = self.into(); r.as_ref().to_vec() }
            fn into_repr_ref(&self) -> Vec<u8> { let r: Repr<{ $l * 8 }> = self.into(); r.as_ref().to_vec() }
        }
    };
}

pf!(halo2curves::bn256::Fq, "bn256::Fq", "30644e72e131a029b85045b68181585d97816a916871ca8d3c208c16d87cfd47", 3, 4, false, [48, 64]);
pf!(halo2curves::bn256::Fr, "bn256::Fr", "30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001", 7, 4, false, [48, 64]);
pf!(halo2curves::bls12381::Fq, "bls12381::Fq", "1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab", 2, 6, true, [64, 96]);
pf!(halo2curves::bls12381::Fr, "bls12381::Fr", "73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001", 7, 4, false, [64]);
pf!(halo2curves::secp256k1::Fp, "secp256k1::Fp", "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", 3, 4, false, [48, 64]);
pf!(halo2curves::secp256k1::Fq, "secp256k1::Fq", "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 7, 4, false, [48, 64]);
pf!(halo2curves::secp256r1::Fp, "secp256r1::Fp", "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff", 6, 4, false, [48, 64]);
pf!(halo2curves::secp256r1::Fq, "secp256r1::Fq", "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551", 7, 4, false, [48, 64]);
pf!(halo2curves::pluto_eris::Fp, "pluto_eris::Fp", "24000000000024000130e0000d7f70e4a803ca76f439266f443f9a5cda8a6c7be4a7a5fe8fadffd6a2a7e8c30006b9459ffffcd300000001", 10, 7, false, [64, 72, 112]);
pf!(halo2curves::pluto_eris::Fq, "pluto_eris::Fq", "24000000000024000130e0000d7f70e4a803ca76f439266f443f9a5c7a8a6c7be4a775fe8e177fd69ca7e85d60050af41ffffcd300000001", 7, 7, false, [64, 72, 112]);

/// Expands `$body!(Type)` for every prime field implemented by the library.
#[macro_export]
macro_rules! for_each_field {
    ($m:ident) => {
        $m!(halo2curves::bn256::Fq);
        $m!(halo2curves::bn256::Fr);
        $m!(halo2curves::bls12381::Fq);
        $m!(halo2curves::bls12381::Fr);
        $m!(halo2curves::secp256k1::Fp);
        $m!(halo2curves::secp256k1::Fq);
        $m!(halo2curves::secp256r1::Fp);
        $m!(halo2curves::secp256r1::Fq);
        $m!(halo2curves::pluto_eris::Fp);
        $m!(halo2curves::pluto_eris::Fq);
    };
}

pub fn fixed_field<F: Field>() -> (F, F) {
    (F::ZERO, F::ONE)
}
