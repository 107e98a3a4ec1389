//! C03: inversion, square roots, quadratic character.
use h2c_monitor::fields::*;
use h2c_monitor::gen::*;
use h2c_monitor::*;
use halo2curves::ff::Field;
use halo2curves::ff_ext::inverse::BYInverter;
use halo2curves::ff_ext::jacobi::jacobi as lib_jacobi;
use num_integer::Integer;
use num_traits::{One, Zero};

fn inverses<F: PF>(t: &mut Task, n: usize) {
    let g = Gen::of::<F>(&t.conf.dict.clone());
    let p = &g.p;
    for i in 0..n {
        let a = if i < g.special.len() && t.name.ends_with('0') { &g.special[i] % p } else { g.val(&mut t.rng) };
        let x: F = make(&g, &mut t.rng, &a);
        t.seen(&a, !a.is_zero());
        t.sample(|| format!("invert {a:x}"));
        if let Some(r) = t.guard("invert", || format!("{a:x}"), || Option::<F>::from(x.invert())) {
            t.class(if r.is_some() { "inverse exists" } else { "inverse of zero refused" });
            let want = invm(&a, p);
            let ok = match (&r, &want) {
                (Some(r), Some(w)) => r.raw() == mulm(w, &g.r, p),
                (None, None) => true,
                _ => false,
            };
            t.check(ok, "invert", || format!("invert({a:x}) = {:?}, expected {want:x?}", r.map(|r| r.val())));
        }
    }
}

fn roots<F: PF>(t: &mut Task, n: usize) {
    let g = Gen::of::<F>(&t.conf.dict.clone());
    let p = &g.p;
    let rou = B::from(F::GEN).modpow(&{
        let mut q = p - 1u32;
        while q.is_even() {
            q >>= 1;
        }
        q
    }, p);
    for i in 0..n {
        let mut a = if i < g.special.len() && t.name.ends_with('0') { &g.special[i] % p } else { g.val(&mut t.rng) };
        match t.rng.below(6) {
            0 | 1 => a = mulm(&a, &a, p),
            2 => {
                // elements of 2-power order, times a square: the cases the
                // Tonelli-Shanks ladder treats differently
                let k = t.rng.below(40);
                let mut w = rou.clone();
                for _ in 0..k {
                    w = mulm(&w, &w, p);
                }
                a = if t.rng.bool() { w } else { mulm(&mulm(&a, &a, p), &w, p) };
            }
            _ => {}
        }
        let x: F = make(&g, &mut t.rng, &a);
        t.seen(&a, !a.is_zero());
        let chi = jacobi(&a, p);
        t.class(match chi {
            1 => "residue",
            0 => "zero",
            _ => "non-residue",
        });
        if let Some((l, qr, qnr)) = t.guard("legendre", || format!("{a:x}"), || {
            (x.legendre(), bool::from(x.ct_quadratic_residue()), bool::from(x.ct_quadratic_non_residue()))
        }) {
            t.check(l == chi, "legendre", || format!("legendre({a:x}) = {l}, expected {chi}"));
            t.check(qr == (chi != -1) && qnr == (chi == -1), "quadratic_residue", || format!("{a:x}: residue={qr} non-residue={qnr}, symbol {chi}"));
        }
        if let Some(r) = t.guard("sqrt", || format!("{a:x}"), || Option::<F>::from(x.sqrt())) {
            t.check(r.is_some() == (chi != -1), "sqrt/exists", || format!("sqrt({a:x}) is_some={} but symbol is {chi}", r.is_some()));
            if let Some(r) = r {
                let v = r.val();
                t.check(r.raw() < *p && mulm(&v, &v, p) == a, "sqrt/value", || format!("sqrt({a:x}) = {v:x}, which does not square to it"));
            }
        }
        if i % 3 == 0 {
            let d = match t.rng.below(8) {
                0 => B::zero(),
                1 => a.clone(),
                _ => g.related(&mut t.rng, &a),
            };
            let num = if t.rng.one_in(10) { B::zero() } else { a.clone() };
            let (nx, dx): (F, F) = (make(&g, &mut t.rng, &num), make(&g, &mut t.rng, &d));
            ratio(t, &g, &nx, &dx, &num, &d);
            if let Some((c, r)) = t.guard("sqrt_alt", || format!("{a:x}"), || {
                let (c, r) = x.sqrt_alt();
                (bool::from(c), r)
            }) {
                check_ratio::<F>(t, &g, "sqrt_alt", c, &r, &a, &b(1));
            }
        }
    }
}

fn ratio<F: PF>(t: &mut Task, g: &Gen, nx: &F, dx: &F, num: &B, d: &B) {
    if let Some((c, r)) = t.guard("sqrt_ratio", || format!("{num:x}/{d:x}"), || {
        let (c, r) = F::sqrt_ratio(nx, dx);
        (bool::from(c), r)
    }) {
        t.seen(&(num, d), true);
        check_ratio::<F>(t, g, "sqrt_ratio", c, &r, num, d);
    }
}

/// The contract of ff::Field::sqrt_ratio.
fn check_ratio<F: PF>(t: &mut Task, g: &Gen, op: &str, c: bool, r: &F, num: &B, d: &B) {
    let p = &g.p;
    let v = r.val();
    let v2 = mulm(&v, &v, p);
    let want = if num.is_zero() {
        (true, B::zero())
    } else if d.is_zero() {
        (false, B::zero())
    } else {
        let q = mulm(num, &invm(d, p).unwrap(), p);
        if jacobi(&q, p) == 1 {
            (true, q)
        } else {
            let rou = F::ROOT_OF_UNITY.val();
            (false, mulm(&q, &rou, p))
        }
    };
    t.class(match (want.0, want.1.is_zero()) {
        (true, true) => "ratio: 0/d",
        (false, true) => "ratio: n/0",
        (true, false) => "ratio: square",
        (false, false) => "ratio: nonsquare",
    });
    t.check(c == want.0 && v2 == want.1 && r.raw() < *p, op, || {
        format!("{op}({num:x}, {d:x}) = ({c}, {v:x}); expected flag {} and a root of {:x}", want.0, want.1)
    });
}

/// The public Bernstein-Yang inverter on moduli of every size it supports.
fn by_any<const L: usize, const S: usize>(t: &mut Task, n: usize) {
    let maxbits = (62 * L - 64).min(64 * S);
    for _ in 0..n {
        let bits = 2 + t.rng.below(maxbits - 1);
        let mut m = structured(&mut t.rng, bits);
        m.set_bit(0, true);
        m.set_bit(bits as u64 - 1, true);
        if m.is_one() {
            continue;
        }
        let x = if t.rng.one_in(6) {
            let xb = 1 + t.rng.below(maxbits);
            structured(&mut t.rng, xb)
        } else {
            let v = structured(&mut t.rng, bits);
            v % &m
        };
        let r2 = (B::one() << (2 * 64 * S)) % &m;
        let a = match t.rng.below(4) {
            0 => b(1),
            1 => r2,
            2 => (B::one() << (64 * S)) % &m,
            _ => le(&t.rng.bytes(8 * S)) % &m,
        };
        t.seen(&(&m, &x, &a), !x.is_zero());
        let (ml, xl, al) = (limbs(&m, S), limbs(&x, S), limbs(&a, S));
        let r = t.guard("BYInverter", || format!("m={m:x} x={x:x} adj={a:x}"), || {
            BYInverter::<L>::new(&ml, &al).invert::<S>(&xl)
        });
        if let Some(r) = r {
            let want = if x.is_zero() { None } else { invm(&x, &m).map(|i| mulm(&i, &a, &m)) };
            let got = r.map(|l| from_limbs(&l));
            t.class(if want.is_some() { "arbitrary modulus: invertible" } else { "arbitrary modulus: not invertible" });
            t.check(got == want, "BYInverter", || format!("m={m:x} x={x:x} adj={a:x}: got {got:x?}, expected {want:x?}"));
        }
    }
}

fn structured(r: &mut Rng, bits: usize) -> B {
    let k = bits.div_ceil(64);
    let v: Vec<u64> = if r.bool() {
        (0..k).map(|_| limb(r, 0x8000_0001)).collect()
    } else {
        (0..k).map(|_| r.u64()).collect()
    };
    from_limbs(&v) % (B::one() << bits)
}

/// The public Jacobi symbol on arbitrary odd denominators.
fn jacobi_any<const L: usize>(t: &mut Task, n: usize) {
    let maxbits = 64 * L - 31;
    for _ in 0..n {
        let db = 1 + t.rng.below(maxbits);
        let mut d = structured(&mut t.rng, db);
        d.set_bit(0, true);
        let nb = t.rng.below(maxbits + 1);
        let mut x = match t.rng.below(6) {
            0 => &d - (structured(&mut t.rng, 20) % &d),
            1 => structured(&mut t.rng, db) % &d,
            2 => {
                // share a factor
                let f = structured(&mut t.rng, (db / 2).max(2));
                let m = &d % (&f + 1u32);
                (&d * 3u32 - m) % (B::one() << maxbits)
            }
            _ => structured(&mut t.rng, nb.max(1)),
        };
        if t.rng.one_in(40) {
            x = B::zero();
        }
        t.seen(&(&x, &d), !x.is_zero());
        let (xl, dl) = (limbs(&x, L), limbs(&d, L));
        if let Some(r) = t.guard("jacobi", || format!("({x:x}/{d:x})"), || lib_jacobi::<L>(&xl, &dl)) {
            let want = jacobi(&x, &d);
            t.class(match want {
                0 => "jacobi 0",
                1 => "jacobi 1",
                _ => "jacobi -1",
            });
            t.check(r == want, "jacobi", || format!("L={L} ({x:x}/{d:x}) = {r}, expected {want}"));
        }
    }
}

/// All arguments below a bound: exhaustive.
fn small(t: &mut Task) {
    for d in (1u64..200).step_by(2) {
        for x in 0u64..400 {
            t.seen(&(x, d), x != 0);
            let want = jacobi(&b(x), &b(d));
            if let Some(r) = t.guard("jacobi", || format!("({x}/{d})"), || lib_jacobi::<1>(&[x], &[d])) {
                t.check(r == want, "jacobi", || format!("({x}/{d}) = {r}, expected {want}"));
            }
            if d > 1 && x < d {
                let want = invm(&b(x), &b(d)).filter(|_| x != 0).map(|v| low(&v));
                if let Some(r) = t.guard("BYInverter", || format!("{x} mod {d}"), || BYInverter::<3>::new(&[d], &[1]).invert::<1>(&[x])) {
                    t.check(r.map(|v| v[0]) == want, "BYInverter", || format!("1/{x} mod {d} = {r:?}, expected {want:?}"));
                }
            }
        }
    }
}

fn main() {
    let conf = Conf::from_args();
    let mut jobs = vec![];
    macro_rules! f {
        ($t:ty) => {
            for k in 0..2 {
                jobs.push(job(format!("{}/inverse{k}", <$t>::NAME), |t| { let n = t.n(20_000); inverses::<$t>(t, n) }));
                jobs.push(job(format!("{}/roots{k}", <$t>::NAME), |t| { let n = t.n(if <$t>::L > 4 { 2500 } else { 5000 }); roots::<$t>(t, n) }));
            }
        };
    }
    h2c_monitor::for_each_field!(f);
    macro_rules! g {
        ($l:expr, $s:expr) => {
            jobs.push(job(format!("inverter/L{}S{}", $l, $s), |t| { let n = t.n(6_000); by_any::<$l, $s>(t, n) }));
        };
    }
    g!(3, 1);
    g!(4, 2);
    g!(6, 4);
    g!(6, 5);
    g!(8, 6);
    g!(9, 7);
    macro_rules! h {
        ($l:expr) => {
            jobs.push(job(format!("jacobi/L{}", $l), |t| { let n = t.n(20_000); jacobi_any::<$l>(t, n) }));
        };
    }
    h!(1);
    h!(2);
    h!(4);
    h!(5);
    h!(7);
    h!(8);
    jobs.push(job("exhaustive-small", small));
    run(conf, jobs)
}
