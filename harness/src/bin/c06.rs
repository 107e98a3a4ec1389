//! C06: ordering, equality, hashing, selection, bit and parity views of a field
//! element all agree with the integer it represents.
use h2c_monitor::fields::*;
use h2c_monitor::gen::*;
use h2c_monitor::*;
use num_integer::Integer;
use num_traits::Zero;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use subtle::Choice;

fn h<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn views<F: PF>(t: &mut Task, n: usize) {
    let g = Gen::of::<F>(&t.conf.dict.clone());
    let p = &g.p;
    for i in 0..n {
        let a = g.val(&mut t.rng);
        let c = match i % 6 {
            0 => a.clone(),
            1 => {
                // differs in exactly one limb or one bit of the value
                let mut l = limbs(&a, F::L);
                let k = t.rng.below(F::L);
                if t.rng.bool() {
                    l[k] ^= 1 << t.rng.below(64);
                } else {
                    l[k] = limb(&mut t.rng, l[k]);
                }
                from_limbs(&l) % p
            }
            2 => {
                // differs in one limb of the internal form
                let mut l = limbs(&mulm(&a, &g.r, p), F::L);
                let k = t.rng.below(F::L);
                l[k] ^= 1 << t.rng.below(64);
                mulm(&(from_limbs(&l) % p), &g.rinv, p)
            }
            _ => g.related(&mut t.rng, &a),
        };
        let (x, y): (F, F) = (make(&g, &mut t.rng, &a), make(&g, &mut t.rng, &c));
        t.seen(&(&a, &c), a != c);
        t.sample(|| format!("a={a:x} b={c:x}"));
        let d = || format!("a={a:x} b={c:x}");
        let eq = a == c;
        t.class(if eq { "equal pairs" } else { "distinct pairs" });
        let ord = a.cmp(&c);
        if let Some((e, ne, ce, cne, o, po, lt, gt, mx)) = t.guard("compare", d, || {
            (
                x == y,
                x != y,
                bool::from(x.ct_eq(&y)),
                bool::from(x.ct_ne(&y)),
                x.cmp(&y),
                x.partial_cmp(&y),
                x < y,
                x > y,
                std::cmp::Ord::max(x, y),
            )
        }) {
            t.check(e == eq && ne != eq, "==", d);
            t.check(ce == eq && cne != eq, "ct_eq", d);
            t.check(o == ord && po == Some(ord), "cmp", || format!("{} gave {o:?}, integers compare {ord:?}", d()));
            t.check(lt == (ord == Ordering::Less) && gt == (ord == Ordering::Greater), "</>", d);
            t.check(mx.val() == (if a > c { &a } else { &c }).clone(), "max", d);
            if eq {
                t.check(h(&x) == h(&y), "hash", d);
            } else {
                t.check(h(&x) != h(&y), "hash distinct", || format!("{}: equal hashes of distinct elements", d()));
            }
        }
        if let Some((s0, s1, as0, as1, sw, nosw)) = t.guard("select", d, || {
            let (mut a0, mut a1) = (x, x);
            a0.conditional_assign(&y, Choice::from(0));
            a1.conditional_assign(&y, Choice::from(1));
            let (mut p0, mut p1) = (x, y);
            F::conditional_swap(&mut p0, &mut p1, Choice::from(1));
            let (mut q0, mut q1) = (x, y);
            F::conditional_swap(&mut q0, &mut q1, Choice::from(0));
            (F::conditional_select(&x, &y, Choice::from(0)), F::conditional_select(&x, &y, Choice::from(1)), a0, a1, (p0, p1), (q0, q1))
        }) {
            let ok = s0.val() == a && s1.val() == c && as0.val() == a && as1.val() == c && sw.0.val() == c && sw.1.val() == a && nosw.0.val() == a && nosw.1.val() == c;
            t.check(ok, "conditional_select", d);
        }
        if let Some((z, zv, odd, even, lex, dbg, bits)) = t.guard("views", d, || {
            (
                bool::from(x.is_zero()),
                x.is_zero_vartime(),
                bool::from(x.is_odd()),
                bool::from(x.is_even()),
                x.i_lex_largest(),
                format!("{x:?}"),
                x.to_le_bits().iter().map(|b| *b).collect::<Vec<bool>>(),
            )
        }) {
            t.check(z == a.is_zero() && zv == a.is_zero(), "is_zero", d);
            t.check(odd == a.is_odd() && even == a.is_even(), "is_odd", d);
            let big = a > negm(&a, p);
            t.check(lex == big, "lexicographically_largest", || format!("a={a:x}: {lex}"));
            let w = format!("0x{:0>1$}", a.to_str_radix(16), 2 * F::size());
            t.check(dbg == w, "Debug", || format!("{dbg} instead of {w}"));
            let wb: Vec<bool> = (0..64 * F::L).map(|k| a.bit(k as u64)).collect();
            t.check(bits == wb, "to_le_bits", || format!("a={a:x}: {bits:?}"));
        }
    }
    let cb: Option<Vec<bool>> = t.guard("char_le_bits", String::new, || F::char_le_bits().iter().map(|b| *b).collect());
    if let Some(cb) = cb {
        let wb: Vec<bool> = (0..64 * F::L).map(|k| p.bit(k as u64)).collect();
        t.check(cb == wb, "char_le_bits", || "bits of the characteristic differ".into());
    }
    t.check(F::default().val().is_zero() && F::i_zero().val().is_zero() && F::ZERO.val().is_zero(), "zero", || "zero".into());
    t.check(F::i_one().val() == b(1) && F::ONE.val() == b(1), "one", || "one".into());
    t.check(F::i_size() == F::size() && F::i_limbs() == F::L, "SIZE", || "size".into());
}

/// Sorting and set membership: the order is total and consistent with Eq/Hash.
fn collections<F: PF>(t: &mut Task, n: usize) {
    let g = Gen::of::<F>(&t.conf.dict.clone());
    for _ in 0..n {
        let k = 2 + t.rng.below(40);
        let mut m: Vec<B> = (0..k).map(|_| g.val(&mut t.rng)).collect();
        let dup = m[0].clone();
        m.push(dup);
        let mut v: Vec<F> = m.iter().map(|b| make(&g, &mut t.rng, b)).collect();
        t.seen(&m, true);
        let r = t.guard("sort", || format!("{m:x?}"), || {
            v.sort();
            let hs: std::collections::HashSet<F> = v.iter().copied().collect();
            let bs: std::collections::BTreeSet<F> = v.iter().copied().collect();
            (v.iter().map(|x| x.val()).collect::<Vec<_>>(), hs.len(), bs.len())
        });
        if let Some((got, hn, bn)) = r {
            m.sort();
            t.check(got == m, "sort", || format!("{got:x?} instead of {m:x?}"));
            m.dedup();
            t.check(hn == m.len() && bn == m.len(), "set sizes", || format!("{hn}/{bn} distinct of {}", m.len()));
        }
    }
    t.class_n("sorted collections", n as u64);
}

fn main() {
    let conf = Conf::from_args();
    let mut jobs = vec![];
    macro_rules! f {
        ($t:ty) => {
            for k in 0..2 {
                jobs.push(job(format!("{}/views{k}", <$t>::NAME), |t| { let n = t.n(15_000); views::<$t>(t, n) }));
            }
            jobs.push(job(format!("{}/collections", <$t>::NAME), |t| { let n = t.n(300); collections::<$t>(t, n) }));
        };
    }
    h2c_monitor::for_each_field!(f);
    run(conf, jobs)
}
