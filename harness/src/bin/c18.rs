//! C18: pairings against an independent optimal ate pairing over big integers.
//!
//! The reference value of e(G1, G2) comes from a textbook Miller loop on the
//! twist and a plain exponentiation by (p^12 - 1)/r; every other expected value
//! is a power of it, from the known logarithms of the arguments.
use h2c_monitor::fields::PF;
use h2c_monitor::tower::*;
use h2c_monitor::*;
use halo2curves::ff::Field;
use halo2curves::ff_ext::cubic::CubicExtField;
use halo2curves::ff_ext::quadratic::QuadExtField;
use halo2curves::group::Group;
use num_traits::{One, Zero};
use pairing::{Engine, MillerLoopResult, MultiMillerLoop, PairingCurveAffine};
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};

/// Line through t (and its slope) on the twist, at P of the base curve.
fn line(tw: &Tower, d_twist: bool, t: &(R2, R2), slope: &R2, p: &(R2, R2)) -> RN {
    let (xp, yp) = p;
    let a = tw.neg(&tw.mul(slope, xp));
    let c = tw.sub(&tw.mul(slope, &t.0), &t.1);
    let mut v = tw.nzero(6);
    v[0] = yp.clone();
    if d_twist {
        v[1] = a;
        v[3] = c;
    } else {
        let xi = tw.inv(&tw.xi).unwrap();
        v[5] = tw.mul(&a, &xi);
        v[3] = tw.mul(&c, &xi);
    }
    v
}
fn chord(c: &CurveRef, t: &(R2, R2), q: &(R2, R2)) -> R2 {
    if t == q {
        let x2 = c.mul(&t.0, &t.0);
        let n = c.add_f(&x2, &c.add_f(&x2, &x2));
        c.mul(&n, &c.inv(&c.add_f(&t.1, &t.1)).unwrap())
    } else {
        c.mul(&c.sub_f(&q.1, &t.1), &c.inv(&c.sub_f(&q.0, &t.0)).unwrap())
    }
}

/// f_{s,Q}(P), followed by the lines through `extra`.
fn miller(c: &CurveRef, d_twist: bool, s: &B, q: &(R2, R2), p: &(R2, R2), extra: &[(R2, R2)]) -> RN {
    let tw = &c.f;
    let mut f = tw.none(6);
    let mut t = q.clone();
    let step = |f: &mut RN, t: &mut (R2, R2), q: &(R2, R2)| {
        let l = line(tw, d_twist, t, &chord(c, t, q), p);
        *f = tw.nmul(f, &l);
        *t = c.add(&Some(t.clone()), &Some(q.clone())).unwrap();
    };
    for i in (0..s.bits() - 1).rev() {
        f = tw.nmul(&f, &f);
        let u = t.clone();
        step(&mut f, &mut t, &u);
        if s.bit(i) {
            step(&mut f, &mut t, q);
        }
    }
    for (i, e) in extra.iter().enumerate() {
        if i + 1 == extra.len() {
            let l = line(tw, d_twist, &t, &chord(c, &t, e), p);
            f = tw.nmul(&f, &l);
        } else {
            step(&mut f, &mut t, e);
        }
    }
    f
}

/// The hexadecimal numbers of a Debug rendering.
fn hexes(s: &str) -> Vec<B> {
    let mut v = vec![];
    let mut rest = s;
    while let Some(i) = rest.find("0x") {
        let t = &rest[i + 2..];
        let n = t.find(|c: char| !c.is_ascii_hexdigit()).unwrap_or(t.len());
        v.push(B::parse_bytes(t[..n].as_bytes(), 16).unwrap_or_default());
        rest = &t[n..];
    }
    v
}

macro_rules! pairing {
    ($m:ident, $name:expr, $fp:ty, $e:ty, $g1:ty, $g2:ty, $d:expr, $rf:expr) => {
        mod $m {
            use super::*;
            type F1 = $fp;
            type F2 = QuadExtField<F1>;
            type F6 = CubicExtField<F2>;
            type F12 = QuadExtField<F6>;
            type E = $e;
            type G1 = $g1;
            type G2 = $g2;
            type A1 = <G1 as PC>::Aff;
            type A2 = <G2 as PC>::Aff;
            type Gt = <E as Engine>::Gt;
            type S = <G1 as PC>::SF;

            struct W {
                w1: World<G1>,
                w2: World<G2>,
                tw: Tower,
                n: B,
                /// exponent of the final exponentiation
                fe: B,
            }
            fn mk2(a: &R2) -> F2 {
                F2::new(F1::of(&a.0), F1::of(&a.1))
            }
            fn mk12(a: &RN) -> F12 {
                F12::new(
                    F6::new(mk2(&a[0]), mk2(&a[2]), mk2(&a[4])),
                    F6::new(mk2(&a[1]), mk2(&a[3]), mk2(&a[5])),
                )
            }
            /// The value of a target group element (it has no accessor).
            fn rd(g: &Gt) -> RN {
                let v = hexes(&format!("{:?}", g));
                assert_eq!(v.len(), 12, "target group elements print as 12 coefficients");
                let c = |i: usize| (v[2 * i].clone(), v[2 * i + 1].clone());
                vec![c(0), c(3), c(1), c(4), c(2), c(5)]
            }
            fn world(t: &mut Task) -> W {
                let dict = t.conf.dict.clone();
                let w1 = World::<G1>::new(&dict, &mut t.rng, 14);
                let w2 = World::<G2>::new(&dict, &mut t.rng, 14);
                let tw = w2.c.f.clone();
                let n = w1.c.n.clone();
                let p12 = tw.p.pow(12u32) - 1u32;
                assert!((&p12 % &n).is_zero());
                let fe = p12 / &n;
                W { w1, w2, tw, n, fe }
            }
            impl W {
                fn final_exp(&self, f: &RN) -> RN {
                    let (m, _, _) = $rf(&self.w2.c);
                    let m: B = m;
                    self.tw.npow(f, &(&self.fe * m))
                }
                fn pair(&self, p: &RP, q: &RP) -> RN {
                    let (_, s, extra): (B, B, Vec<i32>) = $rf(&self.w2.c);
                    let c = &self.w2.c;
                    let psi = Psi::new(c, $d);
                    let ex: Vec<(R2, R2)> = extra
                        .iter()
                        .map(|k| {
                            let mut x = q.clone();
                            for _ in 0..k.abs() {
                                x = psi.apply(c, &x);
                            }
                            if *k < 0 { c.neg(&x) } else { x }.unwrap()
                        })
                        .collect();
                    let f = miller(c, $d, &s, q.as_ref().unwrap(), p.as_ref().unwrap(), &ex);
                    // a negative parameter inverts
                    let f = if $name == "bls12381" { self.tw.npow(&f, &(self.tw.p.pow(6u32))) } else { f };
                    self.final_exp(&f)
                }
                fn base(&self) -> RN {
                    self.pair(&self.w1.c.gen, &self.w2.c.gen)
                }
                fn pow(&self, g: &RN, k: &B) -> RN {
                    self.tw.npow(g, &(k % &self.n))
                }
            }
            /// Powers of the reference value.
            fn table(w: &W) -> Vec<RN> {
                let mut v = vec![w.base()];
                for i in 1..w.n.bits() as usize {
                    v.push(w.tw.nmul(&v[i - 1], &v[i - 1]));
                }
                v
            }
            fn gpow(w: &W, t: &[RN], k: &B) -> RN {
                let k = k % &w.n;
                let mut r = w.tw.none(6);
                for i in 0..k.bits() {
                    if k.bit(i) {
                        r = w.tw.nmul(&r, &t[i as usize]);
                    }
                }
                r
            }

            pub fn single(t: &mut Task, n: usize) {
                let w = world(t);
                let tab = table(&w);
                for _ in 0..n {
                    let (a, p) = w.w1.sub_point(&mut t.rng);
                    let (b, q) = w.w2.sub_point(&mut t.rng);
                    let pa: A1 = G1::aff(&p);
                    let qa: A2 = G2::aff(&q);
                    let e = gpow(&w, &tab, &(&a * &b));
                    let d = || format!("P=[{a:x}]G1 Q=[{b:x}]G2");
                    t.seen(&(&a, &b), p.is_some() && q.is_some());
                    t.class(if p.is_none() || q.is_none() { "identity argument" } else { "proper pair" });
                    t.sample(d);
                    if let Some(v) = t.guard("pairing", d, || {
                        [
                            E::pairing(&pa, &qa),
                            pa.pairing_with(&qa),
                            qa.pairing_with(&pa),
                            E::multi_miller_loop(&[(&pa, &qa)]).final_exponentiation(),
                        ]
                    }) {
                        for (i, g) in v.iter().enumerate() {
                            let got = rd(g);
                            t.check(got == e, "pairing", || format!("variant {i}: got {got:x?} instead of {e:x?}; {}", d()));
                            let one = e == w.tw.none(6);
                            t.check(bool::from(g.is_identity()) == one, "is_identity", d);
                        }
                    }
                }
            }

            /// The reference itself, on points whose logarithms do not help.
            pub fn direct(t: &mut Task, n: usize) {
                let w = world(t);
                for _ in 0..n {
                    let p = w.w1.c.smul(&w.w1.s.uniform(&mut t.rng), &w.w1.c.gen);
                    let q = w.w2.c.smul(&w.w2.s.uniform(&mut t.rng), &w.w2.c.gen);
                    let d = || format!("P={} Q={}", show(&p), show(&q));
                    t.seen(&format!("{p:?}{q:?}"), true);
                    t.sample(d);
                    let e = w.pair(&p, &q);
                    if let Some(g) = t.guard("pairing", d, || E::pairing(&G1::aff(&p), &G2::aff(&q))) {
                        let got = rd(&g);
                        t.check(got == e, "pairing", || format!("got {got:x?} instead of {e:x?}; {}", d()));
                    }
                }
                // the order is exactly the group order: not one, and one after n
                let g = w.base();
                t.check(g != w.tw.none(6) && w.pow(&g, &(&w.n - 1u32)) == w.tw.nfrob(&g, &w.tw.frob_table(6), 6), "order", || {
                    "reference value of the generators".into()
                });
            }

            pub fn multi(t: &mut Task, n: usize) {
                let w = world(t);
                let tab = table(&w);
                for i in 0..n {
                    let len = match i % 4 {
                        0 => t.rng.below(3),
                        1 => t.rng.range(2, 4),
                        _ if i % 16 == 11 => t.rng.range(14, 90),
                        _ => t.rng.below(14),
                    };
                    let len = fresh_size(&mut t.rng, if i % 8 == 7 { 600 } else { 70 }).unwrap_or(len);
                    let mut terms: Vec<((B, RP), (B, RP))> = vec![];
                    let idp = t.rng.range(2, 6);
                    for _ in 0..len {
                        let r = &mut t.rng;
                        let mut x = (w.w1.sub_point(r), w.w2.sub_point(r));
                        if r.one_in(idp) {
                            if r.bool() { x.0 = (B::zero(), None) } else { x.1 = (B::zero(), None) }
                        }
                        if let (Some(y), true) = (terms.last().cloned(), r.one_in(5)) {
                            // cancel or repeat the previous term
                            x = y;
                            match r.below(3) {
                                0 => x.0 = ((&w.n - &x.0 .0) % &w.n, w.w1.c.neg(&x.0 .1)),
                                1 => x.1 = ((&w.n - &x.1 .0) % &w.n, w.w2.c.neg(&x.1 .1)),
                                _ => {}
                            }
                        }
                        terms.push(x);
                    }
                    let pa: Vec<A1> = terms.iter().map(|x| G1::aff(&x.0 .1)).collect();
                    let qa: Vec<A2> = terms.iter().map(|x| G2::aff(&x.1 .1)).collect();
                    let refs: Vec<(&A1, &A2)> = pa.iter().zip(qa.iter()).collect();
                    let ids = terms.iter().filter(|x| x.0 .1.is_none() || x.1 .1.is_none()).count();
                    let d = || {
                        format!("{len} terms: {}", terms.iter().map(|x| format!("([{:x}]G1,[{:x}]G2) ", x.0 .0, x.1 .0)).collect::<String>())
                    };
                    t.seen(&d(), len > ids);
                    t.class(match (len, ids) {
                        (0, _) => "empty list",
                        (1, _) => "one term",
                        (_, 0) => "several terms, no identity",
                        (l, i) if l == i => "only identities",
                        _ => "several terms with identities",
                    });
                    t.sample(d);
                    let k = terms.iter().fold(B::zero(), |s, x| s + &x.0 .0 * &x.1 .0) % &w.n;
                    let e = gpow(&w, &tab, &k);
                    if let Some((g, sum, sum2)) = t.guard("multi", d, || {
                        let g = E::multi_miller_loop(&refs).final_exponentiation();
                        let each: Vec<Gt> = refs.iter().map(|(p, q)| E::pairing(p, q)).collect();
                        (g, each.iter().sum::<Gt>(), each.into_iter().sum::<Gt>())
                    }) {
                        let got = rd(&g);
                        t.check(got == e, "multi", || format!("got {got:x?} instead of {e:x?}; {}", d()));
                        t.check(sum == g && sum2 == g, "sum of single pairings", d);
                    }
                }
            }

            pub fn target(t: &mut Task, n: usize) {
                let w = world(t);
                let tab = table(&w);
                let g = match t.guard("pairing", || "generators".into(), || E::pairing(&G1::aff(&w.w1.c.gen), &G2::aff(&w.w2.c.gen))) {
                    Some(g) => g,
                    None => return,
                };
                let mk = |t: &mut Task, k: &B| -> Option<Gt> {
                    // through the pairing, so that it does not rest on the operation under test
                    let p = G1::aff(&w.w1.c.smul(k, &w.w1.c.gen));
                    let q = G2::aff(&w.w2.c.gen);
                    t.guard("pairing", || format!("[{k:x}]G1, G2"), || E::pairing(&p, &q))
                };
                let mut els: Vec<(B, Gt)> = vec![(B::one(), g), (B::zero(), <Gt as Group>::identity())];
                for _ in 0..8 {
                    let k = w.w1.s.val(&mut t.rng) % &w.n;
                    let Some(e) = mk(t, &k) else { return };
                    els.push((k, e));
                }
                for _ in 0..n {
                    let (a, x) = t.rng.pick(&els).clone();
                    let (b, y) = match t.rng.below(5) {
                        0 => (a.clone(), x),
                        _ => t.rng.pick(&els).clone(),
                    };
                    let k = match t.rng.below(6) {
                        0 => b_(t.rng.below(5) as u64),
                        1 => &w.n - 1u32 - b_(t.rng.below(3) as u64),
                        2 => B::one() << t.rng.below(w.n.bits() as usize - 1),
                        _ => w.w1.s.val(&mut t.rng) % &w.n,
                    };
                    let s: S = G1::sc(&k);
                    let d = || format!("x=g^{a:x} y=g^{b:x} k={k:x}");
                    t.seen(&(&a, &b, &k), !a.is_zero());
                    t.class(if a == b { "equal operands" } else if a.is_zero() || b.is_zero() { "identity operand" } else { "generic" });
                    t.sample(d);
                    let cases: Vec<(&'static str, B, Option<Vec<Gt>>)> = vec![
                        ("add", &a + &b, t.guard("add", d, || {
                            let (mut u, mut v) = (x, x);
                            u += y;
                            v += &y;
                            vec![x + y, x + &y, &x + y, &x + &y, u, v, [x, y].iter().sum(), [y, x].into_iter().sum()]
                        })),
                        ("sub", &a + &w.n - &b, t.guard("sub", d, || {
                            let (mut u, mut v) = (x, x);
                            u -= y;
                            v -= &y;
                            vec![x - y, x - &y, &x - y, &x - &y, u, v]
                        })),
                        ("neg", &w.n - &a, t.guard("neg", d, || vec![-x, -&x])),
                        ("double", &a * 2u32, t.guard("double", d, || vec![x.double(), Group::double(&x)])),
                        ("scalar", &a * &k, t.guard("scalar", d, || {
                            let (mut u, mut v) = (x, x);
                            u *= s;
                            v *= &s;
                            vec![x * s, x * &s, &x * s, &x * &s, u, v]
                        })),
                        ("identity", B::zero(), t.guard("identity", d, || {
                            vec![Gt::identity(), <Gt as Group>::identity(), Vec::<Gt>::new().iter().sum(), x * S::ZERO]
                        })),
                        ("select", a.clone(), t.guard("select", d, || vec![
                            Gt::conditional_select(&x, &y, Choice::from(0)),
                            Gt::conditional_select(&y, &x, Choice::from(1)),
                        ])),
                    ];
                    for (op, log, vs) in cases {
                        let Some(vs) = vs else { continue };
                        let e = gpow(&w, &tab, &log);
                        for (i, v) in vs.iter().enumerate() {
                            let got = rd(v);
                            t.check(got == e, op, || format!("variant {i}: got {got:x?} instead of {e:x?}; {}", d()));
                        }
                    }
                    t.check((x == y) == (a == b) && bool::from(x.ct_eq(&y)) == (a == b) && (x != y) == (a != b), "equality", d);
                    t.check(bool::from(x.is_identity()) == a.is_zero(), "is_identity", d);
                }
                // random elements belong to the group
                let p6 = w.tw.frob_table(6);
                for i in 0..2 {
                    let mut r = Rng::new(t.rng.u64());
                    let d = || format!("random element {i}");
                    if let Some(x) = t.guard("random", d, || <Gt as Group>::random(&mut r)) {
                        let v = rd(&x);
                        t.seen(&format!("{v:?}"), true);
                        // x^(n-1) is its inverse, the conjugate
                        t.check(w.pow(&v, &(&w.n - 1u32)) == w.tw.nfrob(&v, &p6, 6), "random", d);
                        t.check(v != w.tw.none(6), "random", d);
                    }
                }
            }

            /// The final exponentiation of arbitrary elements.
            pub fn fexp(t: &mut Task, n: usize) {
                let w = world(t);
                let g = &w.w1.g;
                for i in 0..n {
                    let r = &mut t.rng;
                    let mut f = w.tw.nzero(6);
                    match i % 5 {
                        0 => f[0] = (g.val(r), g.val(r)),
                        1 => {
                            // a sparse line
                            f[0].0 = g.uniform(r);
                            f[1] = (g.val(r), g.uniform(r));
                            f[3] = (g.val(r), g.val(r));
                        }
                        2 => {
                            // in the subfields of degree 4 and 6
                            let k = if r.bool() { 2 } else { 3 };
                            for j in (0..6).step_by(k) {
                                f[j] = (g.uniform(r), g.val(r));
                            }
                        }
                        _ => {
                            for c in f.iter_mut() {
                                *c = (g.val(r), g.uniform(r));
                            }
                        }
                    }
                    if f == w.tw.nzero(6) {
                        f = w.tw.none(6);
                    }
                    let d = || format!("f={f:x?}");
                    t.seen(&format!("{f:?}"), true);
                    t.class(["Fp2", "line", "subfield", "generic", "generic"][i % 5]);
                    let x = mk12(&f);
                    let e = w.final_exp(&f);
                    if let Some(y) = t.guard("final exponentiation", d, || x.final_exponentiation()) {
                        let got = rd(&y);
                        t.check(got == e, "final exponentiation", || format!("got {got:x?} instead of {e:x?}; {}", d()));
                    }
                }
            }

            pub fn jobs(jobs: &mut Vec<Job>) {
                let slow = if F1::L > 6 { 4 } else { 1 };
                jobs.push(job(concat!($name, "/final exponentiation"), move |t: &mut Task| { let n = t.n(20 / slow); fexp(t, n) }));
                jobs.push(job(concat!($name, "/direct"), move |t: &mut Task| { let n = t.n(8 / slow); direct(t, n) }));
                for part in 0..2 {
                    jobs.push(job(format!("{}/single{part}", $name), move |t: &mut Task| { let n = t.n(120 / slow); single(t, n) }));
                    jobs.push(job(format!("{}/multi{part}", $name), move |t: &mut Task| { let n = t.n(80 / slow); multi(t, n) }));
                    jobs.push(job(format!("{}/target{part}", $name), move |t: &mut Task| { let n = t.n(30 / slow); target(t, n) }));
                }
            }
        }
    };
}

fn b_(x: u64) -> B {
    B::from(x)
}

// (power of the final exponentiation, loop length, extra points in powers of Frobenius)
fn bn_loop(_: &CurveRef) -> (B, B, Vec<i32>) {
    let u = B::from(4965661367192848881u64);
    (B::one(), &u * 6u32 + 2u32, vec![1, -2])
}
fn bls_loop(_: &CurveRef) -> (B, B, Vec<i32>) {
    (B::from(3u32), B::from(0xd201000000010000u64), vec![])
}
fn pluto_loop(_: &CurveRef) -> (B, B, Vec<i32>) {
    let u = hex("4000000000001000008780000000");
    (B::one(), u * 6u32 - 2u32, vec![-1, 2])
}

pairing!(bn, "bn256", halo2curves::bn256::Fq, halo2curves::bn256::Bn256, halo2curves::bn256::G1, halo2curves::bn256::G2, true, bn_loop);
pairing!(bls, "bls12381", halo2curves::bls12381::Fq, halo2curves::bls12381::Bls12381, halo2curves::bls12381::G1, halo2curves::bls12381::G2, false, bls_loop);
pairing!(pluto, "pluto", halo2curves::pluto_eris::Fp, halo2curves::pluto_eris::Pluto, halo2curves::pluto_eris::G1, halo2curves::pluto_eris::G2, true, pluto_loop);

fn main() {
    let conf = Conf::from_args();
    let mut v = vec![];
    pluto::jobs(&mut v);
    bls::jobs(&mut v);
    bn::jobs(&mut v);
    run(conf, v);
}
