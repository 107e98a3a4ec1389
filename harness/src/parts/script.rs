//! Scripts: bundles of operations of the public interface whose every result
//! is a function of a seed.  They carry no oracle of their own; their records
//! are compared across builds (C02), schedules (C17) and repetitions (C22), and
//! they are the workload of the sanitizers (C20).
use h2c_monitor::fields::PF;
use h2c_monitor::gen::make;
use h2c_monitor::*;
use halo2curves as h;
use halo2curves::ff::{BatchInvert, Field, PrimeField};
use halo2curves::ff_ext::cubic::{CubicExtField, CubicSparseMul};
use halo2curves::ff_ext::quadratic::{QuadExtField, QuadSparseMul};
use halo2curves::ff_ext::{ExtField, Legendre};
use halo2curves::fft::best_fft;
use halo2curves::group::cofactor::CofactorGroup;
use halo2curves::group::prime::PrimeCurveAffine;
use halo2curves::group::{Curve, Group, GroupEncoding, UncompressedEncoding};
use halo2curves::msm::{msm_best, msm_parallel, msm_serial};
use halo2curves::serde::SerdeObject;
use halo2curves::{CurveAffine, CurveExt};
use num_traits::{One, Zero};
use pairing::{Engine, MillerLoopResult, MultiMillerLoop};
use std::io::Cursor;
use std::sync::OnceLock;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

// ------------------------------------------------------------------- records

/// A canonical rendering of a result.
pub trait Out {
    fn out(&self, v: &mut Vec<u8>);
}
macro_rules! out_dbg {
    ($($t:ty),*) => { $(impl Out for $t {
        fn out(&self, v: &mut Vec<u8>) { v.extend_from_slice(format!("{:?};", self).as_bytes()) }
    })* };
}
out_dbg!(bool, u8, i32, i64, u32, u64, u128, usize, String, std::cmp::Ordering, Vec<u8>, (), h::bn256::Gt, h::bls12381::Gt, h::pluto_eris::Gt);
macro_rules! out_field {
    ($($t:ty),*) => { $(impl Out for $t {
        fn out(&self, v: &mut Vec<u8>) { v.extend_from_slice(&self.to_raw_bytes()) }
    })* };
}
out_field!(
    h::bn256::Fq, h::bn256::Fr, h::bls12381::Fq, h::bls12381::Fr, h::secp256k1::Fp, h::secp256k1::Fq, h::secp256r1::Fp,
    h::secp256r1::Fq, h::pluto_eris::Fp, h::pluto_eris::Fq
);
impl<F: ExtField + Out> Out for QuadExtField<F>
where
    QuadExtField<F>: Field,
{
    fn out(&self, v: &mut Vec<u8>) {
        self.c0().out(v);
        self.c1().out(v)
    }
}
impl<F: ExtField + Out> Out for CubicExtField<F>
where
    CubicExtField<F>: Field,
{
    fn out(&self, v: &mut Vec<u8>) {
        self.c0().out(v);
        self.c1().out(v);
        self.c2().out(v)
    }
}
impl Out for Choice {
    fn out(&self, v: &mut Vec<u8>) {
        v.push(self.unwrap_u8())
    }
}
impl<T: Out> Out for Option<T> {
    fn out(&self, v: &mut Vec<u8>) {
        match self {
            None => v.push(b'N'),
            Some(x) => {
                v.push(b'S');
                x.out(v)
            }
        }
    }
}
impl<T: Out> Out for CtOption<T>
where
    T: Copy,
{
    fn out(&self, v: &mut Vec<u8>) {
        Option::<T>::from(*self).out(v)
    }
}
impl<T: Out> Out for [T] {
    fn out(&self, v: &mut Vec<u8>) {
        v.extend_from_slice(format!("{}:", self.len()).as_bytes());
        self.iter().for_each(|x| x.out(v))
    }
}
impl<T: Out, const N: usize> Out for [T; N] {
    fn out(&self, v: &mut Vec<u8>) {
        self[..].out(v)
    }
}
macro_rules! out_tuple {
    ($($n:ident),*) => {
        impl<$($n: Out),*> Out for ($($n,)*) {
            #[allow(non_snake_case)]
            fn out(&self, v: &mut Vec<u8>) { let ($($n,)*) = self; $($n.out(v);)* }
        }
    };
}
out_tuple!(A);
out_tuple!(A, B1);
out_tuple!(A, B1, C);
out_tuple!(A, B1, C, D);
out_tuple!(A, B1, C, D, E);
out_tuple!(A, B1, C, D, E, F);
out_tuple!(A, B1, C, D, E, F, G);
out_tuple!(A, B1, C, D, E, F, G, H);
/// Projective points are recorded by the point they stand for.
pub struct Pts<'a, C: PC>(pub &'a [C]);
impl<C: PC> Out for Pts<'_, C>
where
    C: Curve<AffineRepr = <C as PC>::Aff> + Group,
    <C as PC>::Aff: SerdeObject,
{
    fn out(&self, v: &mut Vec<u8>) {
        for p in self.0 {
            v.extend_from_slice(&p.to_affine().to_raw_bytes())
        }
    }
}
pub struct Affs<'a, A>(pub &'a [A]);
impl<A: SerdeObject> Out for Affs<'_, A> {
    fn out(&self, v: &mut Vec<u8>) {
        for p in self.0 {
            v.extend_from_slice(&p.to_raw_bytes())
        }
    }
}
/// Plain bytes.
pub struct Raw(pub Vec<u8>);
impl Out for Raw {
    fn out(&self, v: &mut Vec<u8>) {
        v.extend_from_slice(&self.0);
        v.push(b';')
    }
}

#[derive(Default)]
pub struct Rec {
    /// operation, digest of its result
    pub items: Vec<(&'static str, u64)>,
    /// inputs and results, when asked for
    pub text: Option<Vec<String>>,
    /// unexpected panics: operation, message
    pub panics: Vec<(&'static str, String)>,
    pub input: String,
    buf: Vec<u8>,
}
impl Rec {
    /// Runs one group of operations and records its result.
    pub fn op<T: Out>(&mut self, name: &'static str, f: impl FnOnce() -> T) {
        self.buf.clear();
        match quiet(f) {
            Ok(r) => r.out(&mut self.buf),
            Err(m) => {
                self.buf.extend_from_slice(b"PANIC");
                self.panics.push((name, format!("{m}; input {}", self.input)));
            }
        }
        self.done(name)
    }
    /// An operation that may refuse its input with a panic.
    pub fn op_may_panic<T: Out>(&mut self, name: &'static str, f: impl FnOnce() -> T) {
        self.buf.clear();
        match quiet(f) {
            Ok(r) => r.out(&mut self.buf),
            Err(_) => self.buf.extend_from_slice(b"PANIC"),
        }
        self.done(name)
    }
    fn done(&mut self, name: &'static str) {
        use std::hash::Hasher;
        #[allow(deprecated)]
        let mut s = std::hash::SipHasher::new_with_keys(17, 29);
        s.write(&self.buf);
        self.items.push((name, s.finish()));
        if let Some(t) = &mut self.text {
            let hexed: String = self.buf.iter().take(600).map(|b| format!("{b:02x}")).collect();
            t.push(format!("{name} on {} -> {hexed}", self.input));
        }
    }
    pub fn input(&mut self, f: impl FnOnce() -> String) {
        self.input = f();
        self.input.truncate(900);
    }
    /// Room for the record, so that writing it does not allocate.
    pub fn reserve(&mut self) {
        self.buf.reserve(1 << 20);
        self.items.reserve(256);
        self.input = String::with_capacity(0);
    }
    /// Bytes the record itself has allocated since.
    pub fn held(&self) -> usize {
        self.input.capacity() + self.panics.capacity() * std::mem::size_of::<(&str, String)>() + self.panics.iter().map(|p| p.1.capacity()).sum::<usize>()
    }
    pub fn digest(&self) -> u64 {
        self.items.iter().fold(7u64, |a, (n, d)| h2c_monitor::run::fnv(n.as_bytes()).wrapping_add(a.rotate_left(9)).wrapping_mul(0x9e3779b97f4a7c15) ^ d)
    }
}

pub struct Unit {
    pub name: String,
    /// rough cost of one case in microseconds (optimised build)
    pub cost: usize,
    pub run: Box<dyn Fn(&mut Rng, &mut Rec) + Send + Sync>,
}

// --------------------------------------------------------------- prime fields

fn field_unit<F>(dict: &[B]) -> Unit
where
    F: PF + Out + Ord,
{
    let g = Gen::of::<F>(dict);
    let run = move |r: &mut Rng, o: &mut Rec| {
        let a = g.val(r);
        let c = g.related(r, &a);
        let (x, y): (F, F) = (make(&g, r, &a), make(&g, r, &c));
        let wide = g.wide(r);
        let e = [r.u64(), if r.bool() { 0 } else { r.u64() }];
        let s = match r.below(4) {
            0 => h2c_monitor::gen::limb(r, g.pl[0]),
            1 => r.below(70000) as u64,
            2 => 65535 + r.below(3) as u64,
            _ => r.u64(),
        };
        let s2 = ((r.u64() as u128) << 64) | h2c_monitor::gen::limb(r, g.pl[0]) as u128;
        let uni: Vec<Vec<u8>> = F::UNIFORM.iter().map(|n| if r.one_in(4) { vec![[0u8, 255, 128][r.below(3)]; *n] } else { r.bytes(*n) }).collect();
        let seed = r.u64();
        let ch = Choice::from(r.below(2) as u8);
        o.input(|| format!("{} a={a:x} b={c:x} wide={wide:x} s={s} s2={s2}", F::NAME));
        o.op("ring", || (x + y, x - y, x * y, -x, x.double(), x.square(), x.cube()));
        o.op("ring (inherent)", || (x.i_add(&y), x.i_sub(&y), x.i_mul(&y), x.i_neg(), x.i_double(), x.i_square()));
        o.op("power", || (x.pow(e), x.pow_vartime(e)));
        o.op("invert", || Option::<F>::from(x.invert()));
        o.op("sqrt", || (Option::<F>::from(x.sqrt()).is_some(), Option::<F>::from(x.square().sqrt()).map(|v| v.square())));
        o.op("sqrt_ratio", || {
            let (q, v) = F::sqrt_ratio(&x, &y);
            (bool::from(q), v.square())
        });
        o.op("legendre", || (x.legendre() as i64, x.ct_quadratic_non_residue(), bool::from(x.ct_quadratic_residue())));
        o.op("encode", || (Raw(x.to_repr().as_ref().to_vec()), Raw(x.to_raw_bytes()), Raw(x.i_to_bytes())));
        let b = to_le(&wide, F::size());
        o.op("decode", || (F::from_raw_bytes(&b), F::i_from_bytes(&b), Option::<F>::from(F::from_repr(F::repr_from(&b)))));
        o.op("views", || {
            (x.cmp(&y), x == y, x.ct_eq(&y), bool::from(x.is_odd()), x.i_lex_largest(), bool::from(x.is_zero()), F::conditional_select(&x, &y, ch))
        });
        o.op("from integers", || (F::from(s), F::from_u128(s2), F::i_from_raw(&limbs(&wide, F::L)), F::from(s % 2 == 0)));
        o.op("uniform", || uni.iter().map(|u| F::uniform(u)).collect::<Vec<_>>().as_slice().to_vec().iter().map(|v| Raw(v.to_raw_bytes())).fold(vec![], |mut a: Vec<u8>, r| { a.extend(r.0); a }));
        o.op("random", || F::random(Rng::new(seed)));
        o.op("text", || (format!("{x:?}"), Option::<F>::from(F::from_str_vartime(&a.to_string()))));
        o.op("bits", || Raw(x.to_le_bits().into_iter().chain(F::char_le_bits().into_iter()).map(|b| b as u8).collect()));
        o.op("serde", || {
            let j = serde_json::to_string(&x).unwrap();
            let v = bincode::serialize(&x).unwrap();
            (j.clone(), v.clone(), serde_json::from_str::<F>(&j).ok(), bincode::deserialize::<F>(&b).ok())
        });
        let list: Vec<F> = vec![x, y, F::ZERO, x * y, F::ONE, x - y];
        o.op("lists", || (list.iter().sum::<F>(), list.iter().take(2).product::<F>()));
        o.op("batch invert", || {
            let mut l = list.clone();
            let p = l.batch_invert();
            let mut v = vec![];
            l.iter().for_each(|x| x.out(&mut v));
            p.out(&mut v);
            Raw(v)
        });
    };
    Unit { name: format!("field/{}", F::NAME), cost: 70, run: Box::new(run) }
}

// --------------------------------------------------------------------- towers

macro_rules! tower_unit {
    ($name:expr, $fp:ty, $dict:expr) => {{
        type F1 = $fp;
        type F2 = QuadExtField<F1>;
        type F6 = CubicExtField<F2>;
        type F12 = QuadExtField<F6>;
        let g = Gen::of::<F1>($dict);
        let run = move |r: &mut Rng, o: &mut Rec| {
            let mut e = || {
                let mut one = || match r.below(6) {
                    0 => B::zero(),
                    1 => B::one(),
                    _ => g.val(r),
                };
                let (a, b) = (one(), one());
                (a, b)
            };
            let v: Vec<R2> = (0..15).map(|_| e()).collect();
            let k = r.below(30);
            o.input(|| format!("{} {v:x?} k={k}", $name));
            let f: Vec<F2> = v.iter().map(|a| F2::new(F1::of(&a.0), F1::of(&a.1))).collect();
            let (x, y) = (f[0], f[1]);
            o.op("fp2", || (x + y, x - y, x * y, x.square(), Field::double(&x), -x, x.mul_by_nonresidue(), Option::<F2>::from(x.invert())));
            o.op("fp2 more", || {
                let mut z = x;
                z.frobenius_map(k);
                let mut c = x;
                c.conjugate();
                (z, c, x.norm(), x.cmp(&y), x == y, bool::from(x.is_odd()), bool::from(x.lexicographically_largest()), x.legendre())
            });
            o.op("fp2 sqrt", || (Option::<F2>::from(x.sqrt()).is_some(), Option::<F2>::from(x.square().sqrt()).map(|v| v.square())));
            o.op("fp2 codec", || {
                let r = x.to_repr();
                (Raw(r.as_ref().to_vec()), Option::<F2>::from(F2::from_repr(r)), Raw(x.to_raw_bytes()), serde_json::to_string(&x).unwrap(), bincode::serialize(&y).unwrap())
            });
            let (a, c) = (F6::new(f[0], f[1], f[2]), F6::new(f[3], f[4], f[5]));
            o.op("fp6", || (a + c, a - c, a * c, Field::square(&a), -a, a.mul_by_nonresidue(), Option::<F6>::from(a.invert())));
            o.op("fp6 more", || {
                let mut z = a;
                z.frobenius_map(k);
                (z, <F6 as CubicSparseMul>::mul_by_1(&a, &f[6]), <F6 as CubicSparseMul>::mul_by_01(&a, &f[6], &f[7]), a == c)
            });
            let (p, q) = (F12::new(a, c), F12::new(F6::new(f[8], f[9], f[10]), F6::new(f[11], f[12], f[13])));
            o.op("fp12", || (p + q, p - q, p * q, Field::square(&p), -p, Option::<F12>::from(p.invert())));
            o.op("fp12 more", || {
                let mut z = p;
                z.frobenius_map(k);
                let mut c = p;
                c.conjugate();
                let (mut s, mut t) = (p, p);
                <F12 as QuadSparseMul>::mul_by_014(&mut s, &f[6], &f[7], &f[14]);
                <F12 as QuadSparseMul>::mul_by_034(&mut t, &f[6], &f[7], &f[14]);
                let mut u = p;
                u.cyclotomic_square();
                (z, c, s, t, u)
            });
        };
        Unit { name: format!("tower/{}", $name), cost: 400, run: Box::new(run) }
    }};
}

// --------------------------------------------------------------------- curves

macro_rules! curve_units {
    ($t:ty, $dict:expr, $out:expr) => {{
        type C = $t;
        type A = <$t as PC>::Aff;
        type S = <$t as PC>::SF;
        static W: OnceLock<World<C>> = OnceLock::new();
        let name = <C as PC>::NAME;
        let dict: Vec<B> = $dict.to_vec();
        let deg2 = <C as PC>::FS > 60;
        let world = move || W.get_or_init(|| World::<C>::new(&dict, &mut Rng::named(99, name), 16));
        let wf = world.clone();
        let run = move |r: &mut Rng, o: &mut Rec| {
            let w = wf();
            let p = w.point(r);
            let q = w.related(r, &p);
            let (pp, qq): (C, C) = (w.proj(r, &p), w.proj(r, &q));
            let (pa, qa): (A, A) = (C::aff(&p), C::aff(&q));
            let k = w.s.val(r);
            let s: S = S::of(&k);
            let seed = r.u64();
            o.input(|| format!("{name} P={} Q={} k={k:x} {:x?}", show(&p), show(&q), pp.xyz()));
            o.op("add", || Raw(bytes(&Pts(&[pp + qq, pp - qq, pp + qa, pp - qa, pa + qa, pa - qa, pa + qq, pa - qq, -pp]))));
            o.op("double", || Raw(bytes(&Pts(&[pp.double(), pp + pp, pa + pa, [pp, qq, pp].iter().sum::<C>()]))));
            o.op("multiply", || Raw(bytes(&Pts(&[pp * s, pa * s]))));
            o.op("affine", || {
                let l = [pp, qq, C::identity(), pp.double()];
                let mut a = vec![C::aff(&None); 4];
                C::batch_normalize(&l, &mut a);
                Raw(bytes(&Affs(&a)))
            });
            o.op("views", || {
                (pp == qq, pp.ct_eq(&qq), pa == qa, bool::from(pp.is_identity()), bool::from(pp.is_on_curve()), bool::from(pa.is_identity()), bool::from(pa.is_on_curve()))
            });
            o.op("coordinates", || Option::<h::Coordinates<A>>::from(pa.coordinates()).map(|c| Raw([c.x().to_raw_bytes(), c.y().to_raw_bytes()].concat())));
            o.op("jacobian", || {
                let (x, y, z) = pp.jacobian_coordinates();
                Option::<C>::from(C::new_jacobian(x, y, z)).map(|p| Raw(bytes(&Pts(&[p]))))
            });
            o.op("subgroup", || (bool::from(pp.is_torsion_free()), Option::<C>::from(pp.into_subgroup().map(|x| C::from(x))).is_some(), Raw(bytes(&Pts(&[pp.clear_cofactor()])))));
            o.op("endomorphism", || Raw(bytes(&Pts(&[pp.endo()]))));
            o.op("random", || Raw([bytes(&Pts(&[C::random(Rng::new(seed))])), bytes(&Affs(&[A::random(Rng::new(seed))]))].concat()));
            o.op("constants", || Raw([bytes(&Pts(&[C::generator(), C::identity()])), bytes(&Affs(&[A::generator(), A::identity()])), C::a().to_raw_bytes(), C::b().to_raw_bytes()].concat()));
            o.op("select", || Raw(bytes(&Pts(&[C::conditional_select(&pp, &qq, Choice::from((seed & 1) as u8))]))));
        };
        $out.push(Unit { name: format!("curve/{name}"), cost: if deg2 { 4000 } else { 1200 }, run: Box::new(run) });

        let wf = world.clone();
        let run = move |r: &mut Rng, o: &mut Rec| {
            let w = wf();
            let p = w.point(r);
            let pp: C = w.proj(r, &p);
            let pa: A = C::aff(&p);
            let fs = <C as PC>::FS;
            let mut enc = pa.to_bytes();
            let mut unc = pa.to_uncompressed();
            let raw = {
                let c = w.g.wide(r);
                let mut v = [to_le(&c, w.g.l * 8), r.bytes(3 * fs)].concat();
                v.truncate(2 * fs);
                v
            };
            match r.below(4) {
                0 => {}
                1 => {
                    let (n, m) = (enc.as_ref().len(), unc.as_ref().len());
                    enc.as_mut()[r.below(n)] ^= 1 << r.below(8);
                    unc.as_mut()[r.below(m)] ^= 1 << r.below(8);
                }
                2 => {
                    r.bytes(enc.as_ref().len()).iter().zip(enc.as_mut()).for_each(|(a, b)| *b = *a);
                    let x = r.below(255) as u8;
                    unc.as_mut().iter_mut().for_each(|b| *b = x);
                }
                _ => {
                    let c = w.g.wide(r);
                    let v = to_le(&c, w.g.l * 8);
                    enc.as_mut().iter_mut().zip(&v).for_each(|(a, b)| *a = *b);
                    unc.as_mut().iter_mut().zip(&v).for_each(|(a, b)| *a = *b);
                }
            }
            o.input(|| format!("{name} P={} enc={:02x?} unc={:02x?} raw={raw:02x?}", show(&p), enc.as_ref(), unc.as_ref()));
            o.op("encode", || (Raw(pa.to_bytes().as_ref().to_vec()), Raw(pp.to_bytes().as_ref().to_vec()), Raw(pa.to_uncompressed().as_ref().to_vec()), Raw(pa.to_raw_bytes())));
            o.op("serde", || {
                let j = serde_json::to_string(&pa).unwrap();
                let back = serde_json::from_str::<A>(&j).ok();
                let bb = bincode::deserialize::<C>(enc.as_ref()).ok();
                (j, bincode::serialize(&pp).unwrap(), back.map(|a| Raw(bytes(&Affs(&[a])))), bb.map(|p| Raw(bytes(&Pts(&[p])))))
            });
            o.op("decode", || (opt(A::from_bytes(&enc)).map(|a| Raw(bytes(&Affs(&[a])))), opt(C::from_bytes(&enc)).map(|a| Raw(bytes(&Pts(&[a]))))));
            o.op("decode unchecked", || (opt(A::from_bytes_unchecked(&enc)).map(|a| Raw(bytes(&Affs(&[a])))), opt(A::from_uncompressed_unchecked(&unc)).map(|a| Raw(bytes(&Affs(&[a]))))));
            o.op("decode uncompressed", || opt(A::from_uncompressed(&unc)).map(|a| Raw(bytes(&Affs(&[a])))));
            o.op("decode raw", || {
                (
                    A::from_raw_bytes(&raw).map(|a| Raw(bytes(&Affs(&[a])))),
                    A::read_raw(&mut Cursor::new(&raw)).ok().map(|a| Raw(bytes(&Affs(&[a])))),
                    C::from_raw_bytes(&raw).is_some(),
                    A::from_raw_bytes(&pa.to_raw_bytes()).is_some(),
                )
            });
        };
        $out.push(Unit { name: format!("codec/{name}"), cost: if deg2 { 4500 } else { 1000 }, run: Box::new(run) });

        let wf = world.clone();
        let run = move |r: &mut Rng, o: &mut Rec| {
            let w = wf();
            let n = match r.below(4) {
                0 => r.below(4),
                1 => r.below(17),
                2 => r.below(70),
                _ => r.below(220),
            };
            let lists = list::<C>(w, r, n);
            o.input(|| format!("{name} msm of {n} terms"));
            o.op("msm", || Raw(bytes(&Pts(&msms::<C, A, S>(&lists.0, &lists.1)))));
        };
        $out.push(Unit { name: format!("msm/{name}"), cost: if deg2 { 60000 } else { 20000 }, run: Box::new(run) });

        let wf = world.clone();
        let run = move |r: &mut Rng, o: &mut Rec| {
            let w = wf();
            let n = 8104 + r.below(400);
            let lists = list::<C>(w, r, n);
            o.input(|| format!("{name} msm of {n} terms"));
            o.op("msm", || Raw(bytes(&Pts(&[msm_best::<A>(&lists.0, &lists.1), msm_parallel::<A>(&lists.0, &lists.1)]))));
        };
        $out.push(Unit { name: format!("bigmsm/{name}"), cost: if deg2 { 3000000 } else { 900000 }, run: Box::new(run) });

        // as long, nearly all coefficients being zero: cheap enough for many schedules
        let wf = world.clone();
        let run = move |r: &mut Rng, o: &mut Rec| {
            let w = wf();
            let n = 8100 + r.below(200);
            let p: Vec<A> = w.pool.iter().map(|x| C::aff(&x.1)).collect();
            let bases: Vec<A> = (0..n).map(|i| p[i % p.len()]).collect();
            let mut sc = vec![S::ZERO; n];
            for _ in 0..40 {
                sc[r.below(n)] = S::of(&w.s.val(r));
            }
            o.input(|| format!("{name} msm of {n} terms, 40 not zero"));
            o.op("msm", || Raw(bytes(&Pts(&[msm_best::<A>(&sc, &bases)]))));
        };
        $out.push(Unit { name: format!("sparsemsm/{name}"), cost: if deg2 { 150000 } else { 50000 }, run: Box::new(run) });

        let run = move |r: &mut Rng, o: &mut Rec| {
            let n = r.below(200);
            let (msg, pre) = (r.bytes(n), "z".repeat(r.below(60)));
            o.input(|| format!("{name} {msg:02x?} {pre}"));
            if <C as PC>::HAS_HASH {
                o.op("hash_to_curve", || Raw(bytes(&Pts(&[<C as CurveExt>::hash_to_curve(&pre)(&msg)]))));
            }
        };
        if <C as PC>::HAS_HASH {
            $out.push(Unit { name: format!("hash/{name}"), cost: if deg2 { 4000 } else { 900 }, run: Box::new(run) });
        }
    }};
}

fn bytes<T: Out>(x: &T) -> Vec<u8> {
    let mut v = vec![];
    x.out(&mut v);
    v
}
fn list<C: PC>(w: &World<C>, r: &mut Rng, n: usize) -> (Vec<C::SF>, Vec<C::Aff>) {
    let rep = r.below(3);
    let s = (0..n)
        .map(|_| {
            C::SF::of(&match r.below(if rep == 0 { 3 } else { 30 }) {
                0 => B::zero(),
                1 => b(r.below(300) as u64),
                _ => w.s.val(r),
            })
        })
        .collect();
    let p = (0..n).map(|i| C::aff(&if rep == 1 { w.pool[i % w.pool.len()].1.clone() } else { w.sub_point(r).1 })).collect();
    (s, p)
}
fn msms<C, A, S>(s: &[S], p: &[A]) -> Vec<C>
where
    C: CurveExt<AffineExt = A, ScalarExt = S>,
    A: CurveAffine<ScalarExt = S, CurveExt = C>,
    S: PrimeField,
{
    let mut acc = C::identity();
    msm_serial(s, p, &mut acc);
    vec![acc, msm_parallel(s, p), msm_best(s, p)]
}

// ---------------------------------------------------------------- fft, pairing

fn fft_unit<F: PF + Out>(dict: &[B]) -> Unit {
    let g = Gen::of::<F>(dict);
    let run = move |r: &mut Rng, o: &mut Rec| {
        let s = F::S.min(9);
        let k = r.below(s as usize + 1) as u32;
        let n = 1usize << k;
        let v: Vec<F> = (0..n).map(|_| F::of(&g.val(r))).collect();
        let w = F::of(&b(F::GEN).modpow(&((&g.p - 1u32) >> k), &g.p));
        o.input(|| format!("{} fft of {n}", F::NAME));
        o.op("fft", || {
            let mut a = v.clone();
            best_fft(&mut a, w, k);
            Raw(bytes(&Wrap(&a[..])))
        });
    };
    Unit { name: format!("fft/{}", F::NAME), cost: 2500, run: Box::new(run) }
}
struct Wrap<'a, T>(&'a [T]);
impl<T: Out> Out for Wrap<'_, T> {
    fn out(&self, v: &mut Vec<u8>) {
        self.0.out(v)
    }
}

macro_rules! pairing_unit {
    ($name:expr, $e:ty, $g1:ty, $g2:ty, $fp:ty, $dict:expr) => {{
        static W: OnceLock<(World<$g1>, World<$g2>)> = OnceLock::new();
        let dict: Vec<B> = $dict.to_vec();
        let run = move |r: &mut Rng, o: &mut Rec| {
            let (w1, w2) = W.get_or_init(|| {
                let r = &mut Rng::named(98, $name);
                (World::<$g1>::new(&dict, r, 14), World::<$g2>::new(&dict, r, 14))
            });
            let n = r.below(4) + 1;
            let t: Vec<_> = (0..n)
                .map(|_| (<$g1>::aff(&w1.sub_point(r).1), <$g2>::aff(&w2.sub_point(r).1)))
                .collect();
            let s = <$g1 as PC>::SF::of(&w1.s.val(r));
            o.input(|| format!("{} pairing of {n} terms {:?}", $name, t[0]));
            o.op("pairing", || {
                let g = <$e as Engine>::pairing(&t[0].0, &t[0].1);
                (g, g + g, -g, g.double(), g * s)
            });
            o.op("multi pairing", || {
                let refs: Vec<_> = t.iter().map(|(a, b)| (a, b)).collect();
                <$e as MultiMillerLoop>::multi_miller_loop(&refs).final_exponentiation()
            });
        };
        Unit { name: format!("pairing/{}", $name), cost: 12000, run: Box::new(run) }
    }};
}

/// All scripts.
pub fn units(dict: &[B]) -> Vec<Unit> {
    let mut u = vec![];
    macro_rules! f {
        ($t:ty) => {
            u.push(field_unit::<$t>(dict));
            u.push(fft_unit::<$t>(dict));
        };
    }
    h2c_monitor::for_each_field!(f);
    u.push(tower_unit!("bn256", h::bn256::Fq, dict));
    u.push(tower_unit!("bls12381", h::bls12381::Fq, dict));
    u.push(tower_unit!("pluto", h::pluto_eris::Fp, dict));
    macro_rules! c {
        ($t:ty) => {
            curve_units!($t, dict, u);
        };
    }
    h2c_monitor::for_each_curve!(c);
    u.push(pairing_unit!("bn256", h::bn256::Bn256, h::bn256::G1, h::bn256::G2, h::bn256::Fq, dict));
    u.push(pairing_unit!("bls12381", h::bls12381::Bls12381, h::bls12381::G1, h::bls12381::G2, h::bls12381::Fq, dict));
    u.push(pairing_unit!("pluto", h::pluto_eris::Pluto, h::pluto_eris::G1, h::pluto_eris::G2, h::pluto_eris::Fp, dict));
    u
}
