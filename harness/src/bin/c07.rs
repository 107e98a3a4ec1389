//! C07: the extension towers are the documented quotient rings; every fast
//! path (Karatsuba, sparse, cyclotomic, Frobenius tables, norm inversion)
//! agrees with schoolbook polynomial arithmetic.
use h2c_monitor::fields::*;
use h2c_monitor::gen::*;
use h2c_monitor::tower::*;
use h2c_monitor::*;
use halo2curves::ff::{Field, PrimeField, WithSmallOrderMulGroup};
use halo2curves::ff_ext::cubic::{CubicExtField, CubicSparseMul};
use halo2curves::ff_ext::quadratic::{QuadExtField, QuadSparseMul};
use halo2curves::ff_ext::{ExtField, Legendre};
use num_traits::{One, Zero};
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};

fn coef(g: &Gen, r: &mut Rng) -> B {
    match r.below(10) {
        0..=2 => B::zero(),
        3 => B::one(),
        4 => &g.p - 1u32,
        5 => g.val(r),
        6 => b(r.below(10) as u64),
        _ => g.uniform(r),
    }
}

macro_rules! tower {
    ($m:ident, $name:expr, $fp:ty, $tw:expr) => {
        mod $m {
            use super::*;
            pub type F1 = $fp;
            pub type F2 = QuadExtField<F1>;
            pub type F6 = CubicExtField<F2>;
            pub type F12 = QuadExtField<F6>;

            pub struct W {
                pub g: Gen,
                pub t: Tower,
                pub fr3: Vec<R2>,
                pub fr6: Vec<R2>,
            }
            pub fn w(t: &Task) -> W {
                let tw: Tower = $tw;
                W { g: Gen::of::<F1>(&t.conf.dict), fr3: tw.frob_table(3), fr6: tw.frob_table(6), t: tw }
            }
            pub fn mk2(a: &R2) -> F2 {
                F2::new(F1::of(&a.0), F1::of(&a.1))
            }
            pub fn rd2(a: &F2) -> R2 {
                (a.c0().val(), a.c1().val())
            }
            pub fn mk6(a: &RN) -> F6 {
                F6::new(mk2(&a[0]), mk2(&a[1]), mk2(&a[2]))
            }
            pub fn rd6(a: &F6) -> RN {
                vec![rd2(a.c0()), rd2(a.c1()), rd2(a.c2())]
            }
            pub fn mk12(a: &RN) -> F12 {
                F12::new(
                    F6::new(mk2(&a[0]), mk2(&a[2]), mk2(&a[4])),
                    F6::new(mk2(&a[1]), mk2(&a[3]), mk2(&a[5])),
                )
            }
            pub fn rd12(a: &F12) -> RN {
                let (e, o) = (rd6(a.c0()), rd6(a.c1()));
                vec![e[0].clone(), o[0].clone(), e[1].clone(), o[1].clone(), e[2].clone(), o[2].clone()]
            }
            pub fn gen2(w: &W, r: &mut Rng) -> R2 {
                (coef(&w.g, r), coef(&w.g, r))
            }
            pub fn gen_n(w: &W, r: &mut Rng, n: usize) -> RN {
                if r.one_in(4) {
                    // very sparse: at most one non-zero coefficient of the base field
                    let mut v = w.t.nzero(n);
                    let k = r.below(2 * n);
                    let c = w.g.val(r);
                    if k % 2 == 0 { v[k / 2].0 = c } else { v[k / 2].1 = c }
                    return v;
                }
                (0..n).map(|_| gen2(w, r)).collect()
            }
            fn other(w: &W, r: &mut Rng, a: &RN) -> RN {
                match r.below(6) {
                    0 => a.clone(),
                    1 => w.t.nneg(a),
                    2 => { let mut c = a.clone(); let k = r.below(a.len()); c[k] = gen2(w, r); c }
                    3 => { let mut c = a.clone(); for (i, x) in c.iter_mut().enumerate() { if i % 2 == 1 { *x = w.t.neg(x) } } c }
                    _ => gen_n(w, r, a.len()),
                }
            }

            pub fn fp2(t: &mut Task, n: usize) {
                let w = w(t);
                let tw = &w.t;
                let p = &tw.p;
                for i in 0..n {
                    let mut a = gen2(&w, &mut t.rng);
                    if i % 5 == 0 { a = tw.mul(&a, &a); }
                    let c = match t.rng.below(6) { 0 => a.clone(), 1 => tw.neg(&a), 2 => (a.0.clone(), negm(&a.1, p)), _ => gen2(&w, &mut t.rng) };
                    let (x, y) = (mk2(&a), mk2(&c));
                    t.seen(&(&a, &c), !(a.1.is_zero() && c.1.is_zero()));
                    t.sample(|| format!("{a:x?} {c:x?}"));
                    let d = || format!("a={a:x?} b={c:x?}");
                    if let Some(v) = t.guard("fp2 ring", d, || {
                        let mut cj = x; cj.conjugate();
                        let mut ma = x; ma *= y;
                        let mut sa = x; sa.square_assign();
                        (x + y, x - y, x * y, ma, x.square(), sa, Field::double(&x), -x, cj, x.norm(), x.mul_by_nonresidue(), x * F2::NON_RESIDUE, x.cube())
                    }) {
                        let sq = tw.mul(&a, &a);
                        t.check(rd2(&v.0) == tw.add(&a, &c), "fp2 add", d);
                        t.check(rd2(&v.1) == tw.sub(&a, &c), "fp2 sub", d);
                        t.check(rd2(&v.2) == tw.mul(&a, &c) && v.3 == v.2, "fp2 mul", d);
                        t.check(rd2(&v.4) == sq && v.5 == v.4, "fp2 square", d);
                        t.check(rd2(&v.6) == tw.add(&a, &a), "fp2 double", d);
                        t.check(rd2(&v.7) == tw.neg(&a), "fp2 neg", d);
                        t.check(rd2(&v.8) == (a.0.clone(), negm(&a.1, p)), "fp2 conjugate", d);
                        t.check(v.9.val() == tw.norm(&a), "fp2 norm", d);
                        let nr = tw.mul(&a, &tw.xi);
                        t.check(rd2(&v.10) == nr && rd2(&v.11) == nr, "fp2 mul_by_nonresidue", d);
                        t.check(rd2(&v.12) == tw.mul(&sq, &a), "fp2 cube", d);
                    }
                    if let Some(r) = t.guard("fp2 invert", d, || Option::<F2>::from(x.invert())) {
                        t.check(r.map(|r| rd2(&r)) == tw.inv(&a), "fp2 invert", d);
                    }
                    let k = match t.rng.below(4) { 0 => t.rng.below(2000), _ => t.rng.below(4) };
                    if let Some(r) = t.guard("fp2 frobenius", d, || { let mut z = x; z.frobenius_map(k); z }) {
                        let want = if k % 2 == 1 { (a.0.clone(), negm(&a.1, p)) } else { a.clone() };
                        t.check(rd2(&r) == want, "fp2 frobenius", || format!("{} k={k}", d()));
                    }
                    if let Some(v) = t.guard("fp2 views", d, || {
                        (x == y, bool::from(x.ct_eq(&y)), bool::from(x.is_zero()), F2::conditional_select(&x, &y, Choice::from(0)), F2::conditional_select(&x, &y, Choice::from(1)),
                         x.cmp(&y), bool::from(x.lexicographically_largest()), bool::from(x.is_odd()), x.legendre())
                    }) {
                        let eq = a == c;
                        t.check(v.0 == eq && v.1 == eq, "fp2 eq", d);
                        t.check(v.2 == (a.0.is_zero() && a.1.is_zero()), "fp2 is_zero", d);
                        t.check(v.3 == x && v.4 == y, "fp2 select", d);
                        t.check(v.5 == (&a.1, &a.0).cmp(&(&c.1, &c.0)), "fp2 cmp", d);
                        let big = |v: &B| v > &negm(v, p);
                        t.check(v.6 == (big(&a.1) || (a.1.is_zero() && big(&a.0))), "fp2 lexicographically_largest", d);
                        t.check(v.7 == (a.0.bit(0) || a.0.is_zero() && a.1.bit(0)), "fp2 is_odd", d);
                        t.check(v.8 == jacobi(&tw.norm(&a), p), "fp2 legendre", d);
                    }
                }
                t.class_n("fp2 operand pairs", n as u64);
                // the base field's own view of the quadratic non-residue
                for _ in 0..50 {
                    let a = w.g.val(&mut t.rng);
                    let x = F1::of(&a);
                    if let Some(v) = t.guard("fp nonresidue", || format!("{a:x}"), || { let mut f = x; f.frobenius_map(1); (x.mul_by_nonresidue(), f, F1::NON_RESIDUE) }) {
                        t.check(v.0.val() == mulm(&a, &tw.beta, p) && v.2.val() == tw.beta, "fp mul_by_nonresidue", || format!("{a:x}"));
                        t.check(v.1 == x, "fp frobenius", || format!("{a:x}"));
                    }
                    let s = low(&a);
                    if let Some(v) = t.guard("fp2 from u64", || format!("{s}"), || F2::from(s)) {
                        t.check(rd2(&v) == (b(s), b(0)), "fp2 from u64", || format!("{s}"));
                    }
                }
                let z = rd2(&<F2 as WithSmallOrderMulGroup<3>>::ZETA);
                let z2 = tw.mul(&z, &z);
                t.check(tw.mul(&z2, &z) == tw.one() && z != tw.one(), "fp2 ZETA", || format!("{z:x?}"));
                t.check(rd2(&F2::ZERO) == tw.zero() && rd2(&F2::ONE) == tw.one() && rd2(&F2::NON_RESIDUE) == tw.xi, "fp2 constants", || "".into());
                let two = rd2(&<F2 as PrimeField>::TWO_INV);
                t.check(tw.add(&two, &two) == tw.one(), "fp2 TWO_INV", || format!("{two:x?}"));
            }

            /// Square roots in the quadratic extension.
            pub fn fp2_sqrt(t: &mut Task, n: usize) {
                let w = w(t);
                let tw = &w.t;
                let p = &tw.p;
                for i in 0..n {
                    let mut a = match i {
                        0 => tw.zero(),
                        1 => tw.one(),
                        2 => tw.neg(&tw.one()),
                        3 => (b(0), b(1)),
                        4 => (b(0), p - 1u32),
                        5 => tw.xi.clone(),
                        6 => (tw.beta.clone(), b(0)),
                        _ => gen2(&w, &mut t.rng),
                    };
                    match t.rng.below(6) {
                        0 => a.1 = b(0),
                        1 => a.0 = b(0),
                        2 if i > 6 => a = tw.mul(&a, &a),
                        _ => {}
                    }
                    let x = mk2(&a);
                    t.seen(&a, !(a.0.is_zero() && a.1.is_zero()));
                    let sq = tw.is_square(&a);
                    t.class(match (a.0.is_zero(), a.1.is_zero(), sq) {
                        (true, true, _) => "sqrt of zero",
                        (false, true, _) => "sqrt of a base-field element",
                        (true, false, _) => "sqrt of a multiple of u",
                        (_, _, true) => "sqrt of a residue",
                        (_, _, false) => "sqrt of a non-residue",
                    });
                    if let Some(r) = t.guard("fp2 sqrt", || format!("{a:x?}"), || Option::<F2>::from(x.sqrt())) {
                        t.check(r.is_some() == sq, "fp2 sqrt exists", || format!("sqrt({a:x?}) is_some={} but square={sq}", r.is_some()));
                        if let Some(r) = r {
                            let v = rd2(&r);
                            t.check(tw.mul(&v, &v) == a, "fp2 sqrt value", || format!("sqrt({a:x?}) = {v:x?}"));
                        }
                    }
                }
            }

            pub fn fp6(t: &mut Task, n: usize) {
                let w = w(t);
                let tw = &w.t;
                for _ in 0..n {
                    let a = gen_n(&w, &mut t.rng, 3);
                    let c = other(&w, &mut t.rng, &a);
                    let (e0, e1) = (gen2(&w, &mut t.rng), gen2(&w, &mut t.rng));
                    let (x, y) = (mk6(&a), mk6(&c));
                    let z = tw.zero();
                    t.seen(&(&a, &c), true);
                    t.sample(|| format!("{a:x?} {c:x?}"));
                    let d = || format!("a={a:x?} b={c:x?} e={e0:x?},{e1:x?}");
                    if let Some(v) = t.guard("fp6 ring", d, || {
                        let mut ma = x; ma *= &y;
                        let mut sa = x; sa.square_assign();
                        (x + y, x - y, x * y, ma, Field::square(&x), sa, Field::double(&x), -x, x.mul_by_nonresidue(), x * F6::NON_RESIDUE,
                         <F6 as CubicSparseMul>::mul_by_1(&x, &mk2(&e1)), <F6 as CubicSparseMul>::mul_by_01(&x, &mk2(&e0), &mk2(&e1)),
                         [x, y, x].iter().sum::<F6>(), [x, y, x].iter().product::<F6>())
                    }) {
                        let sq = tw.nmul(&a, &a);
                        let pr = tw.nmul(&a, &c);
                        t.check(rd6(&v.0) == tw.nadd(&a, &c), "fp6 add", d);
                        t.check(rd6(&v.1) == tw.nsub(&a, &c), "fp6 sub", d);
                        t.check(rd6(&v.2) == pr && v.3 == v.2, "fp6 mul", d);
                        t.check(rd6(&v.4) == sq && v.5 == v.4, "fp6 square", d);
                        t.check(rd6(&v.6) == tw.nadd(&a, &a), "fp6 double", d);
                        t.check(rd6(&v.7) == tw.nneg(&a), "fp6 neg", d);
                        let nr = tw.nmul(&a, &vec![z.clone(), tw.one(), z.clone()]);
                        t.check(rd6(&v.8) == nr && rd6(&v.9) == nr, "fp6 mul_by_nonresidue", d);
                        t.check(rd6(&v.10) == tw.nmul(&a, &vec![z.clone(), e1.clone(), z.clone()]), "fp6 mul_by_1", d);
                        t.check(rd6(&v.11) == tw.nmul(&a, &vec![e0.clone(), e1.clone(), z.clone()]), "fp6 mul_by_01", d);
                        t.check(rd6(&v.12) == tw.nadd(&tw.nadd(&a, &c), &a), "fp6 sum", d);
                        t.check(rd6(&v.13) == tw.nmul(&pr, &a), "fp6 product", d);
                    }
                    let az = a.iter().all(|c| c.0.is_zero() && c.1.is_zero());
                    if let Some(r) = t.guard("fp6 invert", d, || Option::<F6>::from(x.invert())) {
                        let ok = match r { Some(r) => !az && tw.nmul(&rd6(&r), &a) == tw.none(3), None => az };
                        t.check(ok, "fp6 invert", d);
                    }
                    let k = match t.rng.below(4) { 0 => t.rng.below(1000), _ => t.rng.below(8) };
                    if let Some(r) = t.guard("fp6 frobenius", d, || { let mut z = x; z.frobenius_map(k); z }) {
                        t.check(rd6(&r) == tw.nfrob(&a, &w.fr3, k % 6), "fp6 frobenius", || format!("{} k={k}", d()));
                    }
                    views!(t, d, x, y, F6, a == c, az, "fp6");
                }
                t.class_n("fp6 operand pairs", n as u64);
            }

            pub fn fp12(t: &mut Task, n: usize) {
                let w = w(t);
                let tw = &w.t;
                for i in 0..n {
                    let a = gen_n(&w, &mut t.rng, 6);
                    let c = other(&w, &mut t.rng, &a);
                    let (e0, e1, e2) = (gen2(&w, &mut t.rng), gen2(&w, &mut t.rng), gen2(&w, &mut t.rng));
                    let (x, y) = (mk12(&a), mk12(&c));
                    let z = tw.zero();
                    t.seen(&(&a, &c), true);
                    t.sample(|| format!("{a:x?} {c:x?}"));
                    let d = || format!("a={a:x?} b={c:x?} e={e0:x?},{e1:x?},{e2:x?}");
                    if let Some(v) = t.guard("fp12 ring", d, || {
                        let mut ma = x; ma *= &y;
                        let mut sa = x; sa.square_assign();
                        let mut cj = x; cj.conjugate();
                        let (mut s14, mut s34) = (x, x);
                        <F12 as QuadSparseMul>::mul_by_014(&mut s14, &mk2(&e0), &mk2(&e1), &mk2(&e2));
                        <F12 as QuadSparseMul>::mul_by_034(&mut s34, &mk2(&e0), &mk2(&e1), &mk2(&e2));
                        (x + y, x - y, x * y, ma, Field::square(&x), sa, Field::double(&x), -x, cj, s14, s34, x.norm(),
                         [x, y, x].iter().sum::<F12>(), [x, y, x].iter().product::<F12>())
                    }) {
                        let sq = tw.nmul(&a, &a);
                        let pr = tw.nmul(&a, &c);
                        let conj: RN = a.iter().enumerate().map(|(i, q)| if i % 2 == 1 { tw.neg(q) } else { q.clone() }).collect();
                        t.check(rd12(&v.0) == tw.nadd(&a, &c), "fp12 add", d);
                        t.check(rd12(&v.1) == tw.nsub(&a, &c), "fp12 sub", d);
                        t.check(rd12(&v.2) == pr && v.3 == v.2, "fp12 mul", d);
                        t.check(rd12(&v.4) == sq && v.5 == v.4, "fp12 square", d);
                        t.check(rd12(&v.6) == tw.nadd(&a, &a), "fp12 double", d);
                        t.check(rd12(&v.7) == tw.nneg(&a), "fp12 neg", d);
                        t.check(rd12(&v.8) == conj, "fp12 conjugate", d);
                        let s14 = vec![e0.clone(), z.clone(), e1.clone(), e2.clone(), z.clone(), z.clone()];
                        t.check(rd12(&v.9) == tw.nmul(&a, &s14), "fp12 mul_by_014", d);
                        let s34 = vec![e0.clone(), e1.clone(), z.clone(), e2.clone(), z.clone(), z.clone()];
                        t.check(rd12(&v.10) == tw.nmul(&a, &s34), "fp12 mul_by_034", d);
                        let nm = tw.nmul(&a, &conj);
                        t.check(rd6(&v.11) == vec![nm[0].clone(), nm[2].clone(), nm[4].clone()], "fp12 norm", d);
                        t.check(rd12(&v.12) == tw.nadd(&tw.nadd(&a, &c), &a), "fp12 sum", d);
                        t.check(rd12(&v.13) == tw.nmul(&pr, &a), "fp12 product", d);
                    }
                    let az = a.iter().all(|c| c.0.is_zero() && c.1.is_zero());
                    let inv = t.guard("fp12 invert", d, || Option::<F12>::from(x.invert()));
                    if let Some(r) = &inv {
                        let ok = match r { Some(r) => !az && tw.nmul(&rd12(r), &a) == tw.none(6), None => az };
                        t.check(ok, "fp12 invert", d);
                    }
                    let k = match t.rng.below(4) { 0 => t.rng.below(1000), _ => t.rng.below(14) };
                    if let Some(r) = t.guard("fp12 frobenius", d, || { let mut z = x; z.frobenius_map(k); z }) {
                        t.check(rd12(&r) == tw.nfrob(&a, &w.fr6, k % 12), "fp12 frobenius", || format!("{} k={k}", d()));
                    }
                    // cyclotomic squaring is specified on the cyclotomic subgroup:
                    // project into it with the reference arithmetic
                    if let (Some(Some(r)), true) = (inv, i % 3 == 0) {
                        let ai = rd12(&r);
                        if tw.nmul(&ai, &a) == tw.none(6) {
                            let conj: RN = a.iter().enumerate().map(|(i, q)| if i % 2 == 1 { tw.neg(q) } else { q.clone() }).collect();
                            let s = tw.nmul(&conj, &ai);
                            let s = tw.nmul(&tw.nfrob(&s, &w.fr6, 2), &s);
                            let cy = mk12(&s);
                            t.class("cyclotomic squarings");
                            if let Some(r) = t.guard("cyclotomic_square", || format!("{s:x?}"), || { let mut z = cy; z.cyclotomic_square(); z }) {
                                t.check(rd12(&r) == tw.nmul(&s, &s), "cyclotomic_square", || format!("{s:x?}"));
                            }
                        }
                    }
                    views!(t, d, x, y, F12, a == c, az, "fp12");
                }
                t.class_n("fp12 operand pairs", n as u64);
            }

            /// Exponentiation, through the generic field API.
            pub fn pows(t: &mut Task, n: usize) {
                let w = w(t);
                let tw = &w.t;
                for _ in 0..n {
                    let e: Vec<u64> = match t.rng.below(4) {
                        0 => vec![t.rng.below(50) as u64],
                        1 => vec![],
                        2 => {
                            let mut v = vec![0; t.rng.range(1, 15)];
                            let at = t.rng.below(v.len());
                            v[at] = limb(&mut t.rng, 5);
                            v
                        }
                        _ => vec![t.rng.u64(), limb(&mut t.rng, 5)],
                    };
                    let eb = from_limbs(&e);
                    let a2 = vec![gen2(&w, &mut t.rng)];
                    let a6 = gen_n(&w, &mut t.rng, 3);
                    let a12 = gen_n(&w, &mut t.rng, 6);
                    t.seen(&(&a12, &e), true);
                    let d = || format!("e={eb:x} a={a2:x?} / {a6:x?} / {a12:x?}");
                    let (x2, x6, x12) = (mk2(&a2[0]), mk6(&a6), mk12(&a12));
                    if let Some(v) = t.guard("pow", d, || (x2.pow(&e), x6.pow(&e), x12.pow(&e), x2.pow_vartime(&e), x6.pow_vartime(&e), x12.pow_vartime(&e))) {
                        t.check(rd2(&v.0) == tw.pow(&a2[0], &eb) && v.3 == v.0, "fp2 pow", d);
                        t.check(rd6(&v.1) == tw.npow(&a6, &eb) && v.4 == v.1, "fp6 pow", d);
                        t.check(rd12(&v.2) == tw.npow(&a12, &eb) && v.5 == v.2, "fp12 pow", d);
                    }
                }
            }

            pub fn jobs(jobs: &mut Vec<Job>) {
                for k in 0..2 {
                    jobs.push(job(format!("{}/fp2-{k}", $name), |t| { let n = t.n(8000); fp2(t, n) }));
                    jobs.push(job(format!("{}/fp6-{k}", $name), |t| { let n = t.n(3000); fp6(t, n) }));
                    jobs.push(job(format!("{}/fp12-{k}", $name), |t| { let n = t.n(1500); fp12(t, n) }));
                }
                jobs.push(job(format!("{}/fp2-sqrt", $name), |t| { let n = t.n(1500); fp2_sqrt(t, n) }));
                jobs.push(job(format!("{}/pow", $name), |t| { let n = t.n(60); pows(t, n) }));
            }
        }
    };
}

/// Equality, zero test and selection must see every coefficient.
macro_rules! views {
    ($t:ident, $d:ident, $x:ident, $y:ident, $f:ident, $eq:expr, $az:expr, $n:expr) => {
        let eq = $eq;
        if let Some(v) = $t.guard(concat!($n, " views"), $d, || {
            (
                $x == $y,
                bool::from($x.ct_eq(&$y)),
                bool::from(Field::is_zero(&$x)),
                $x.is_zero_vartime(),
                $f::conditional_select(&$x, &$y, Choice::from(0)),
                $f::conditional_select(&$x, &$y, Choice::from(1)),
            )
        }) {
            $t.check(v.0 == eq && v.1 == eq, concat!($n, " eq"), $d);
            $t.check(v.2 == $az && v.3 == $az, concat!($n, " is_zero"), || format!("is_zero={} vartime={} for {:?}", v.2, v.3, $x));
            $t.check(v.4 == $x && v.5 == $y, concat!($n, " select"), $d);
        }
    };
}
use views;

tower!(bn, "bn256", halo2curves::bn256::Fq, bn256_tower());
tower!(bls, "bls12381", halo2curves::bls12381::Fq, bls12381_tower());
tower!(pluto, "pluto", halo2curves::pluto_eris::Fp, pluto_tower());

fn main() {
    let conf = Conf::from_args();
    let mut jobs = vec![];
    bn::jobs(&mut jobs);
    bls::jobs(&mut jobs);
    pluto::jobs(&mut jobs);
    run(conf, jobs)
}
