//! C05: conversions into a prime field reduce the documented integer.
use h2c_monitor::fields::*;
use h2c_monitor::gen::*;
use h2c_monitor::*;
use num_traits::{One, ToPrimitive, Zero};

fn expect<F: PF>(t: &mut Task, g: &Gen, op: &str, got: &F, n: &B) {
    let want = n % &g.p;
    let w = mulm(&want, &g.r, &g.p);
    let raw = got.raw();
    t.check(raw == w, op, || format!("{op} of {n:x}: internal {raw:x}, expected {w:x} (value {want:x})"));
}

fn ints<F: PF>(t: &mut Task, n: usize) {
    let g = Gen::of::<F>(&t.conf.dict.clone());
    for k in [false, true] {
        if let Some(x) = t.guard("From<bool>", || format!("{k}"), || F::from(k)) {
            expect(t, &g, "From<bool>", &x, &b(k as u64));
        }
    }
    let dict64: Vec<u64> = t.conf.dict.iter().filter_map(|d| d.to_u64()).collect();
    for i in 0..n {
        let v = match i % 4 {
            0 if !dict64.is_empty() => t.rng.pick(&dict64).wrapping_add(t.rng.below(3) as u64).wrapping_sub(1),
            1 => limb(&mut t.rng, g.pl[0]),
            2 => t.rng.below(140_000) as u64,
            _ => t.rng.u64(),
        };
        t.seen(&v, v > 1);
        if let Some(x) = t.guard("From<u64>", || format!("{v}"), || F::from(v)) {
            expect(t, &g, "From<u64>", &x, &b(v));
        }
        let hi = if t.rng.one_in(4) { 0 } else { limb(&mut t.rng, g.pl[1]) };
        let w = ((hi as u128) << 64) | v as u128;
        t.seen(&w, hi != 0);
        if let Some(x) = t.guard("from_u128", || format!("{w}"), || F::from_u128(w)) {
            expect(t, &g, "from_u128", &x, &B::from(w));
        }
        // from_raw: any L-limb integer, reduced
        let r = g.wide(&mut t.rng);
        t.seen(&r, true);
        t.class(if r >= g.p { "from_raw of a value >= p" } else { "from_raw of a value < p" });
        if let Some(x) = t.guard("from_raw", || format!("{r:x}"), || F::i_from_raw(&limbs(&r, F::L))) {
            expect(t, &g, "from_raw", &x, &r);
        }
        t.sample(|| format!("From<u64>({v}), from_u128({w}), from_raw({r:x})"));
    }
}

/// Every u64 below 2^17: covers the whole precomputed table and its boundary.
fn small_exhaustive<F: PF>(t: &mut Task) {
    let g = Gen::of::<F>(&[]);
    let mut w = B::zero();
    for v in 0..(1u64 << 17) {
        t.seen(&v, v > 1);
        if let Some(x) = t.guard("From<u64>", || format!("{v}"), || F::from(v)) {
            let raw = x.raw();
            t.check(raw == w, "From<u64>", || format!("From<u64>({v}): internal {raw:x}, expected {w:x}"));
        }
        w = addm(&w, &g.r, &g.p);
    }
}

fn wide<F: PF>(t: &mut Task, n: usize) {
    let g = Gen::of::<F>(&t.conf.dict.clone());
    for &len in F::UNIFORM {
        for i in 0..n {
            let bytes = match i % 8 {
                0 => vec![[0u8, 0xff, 1, 0x80][i / 8 % 4]; len],
                1 => {
                    // a multiple of p, give or take one
                    let q = le(&t.rng.bytes(len - F::size().min(len - 1)));
                    let mut v = q * &g.p + b(t.rng.below(3) as u64);
                    if t.rng.bool() && !v.is_zero() {
                        v -= 1u32;
                    }
                    let m = B::one() << (8 * len);
                    to_le(&(v % m), len)
                }
                2..=4 => {
                    let mut v = vec![];
                    while v.len() < len {
                        v.extend_from_slice(&limb(&mut t.rng, g.pl[v.len() / 8 % F::L]).to_le_bytes());
                    }
                    v.truncate(len);
                    v
                }
                5 => {
                    // single set bit
                    let k = t.rng.below(8 * len);
                    let mut v = vec![0; len];
                    v[k / 8] = 1 << (k % 8);
                    v
                }
                _ => t.rng.bytes(len),
            };
            let v = le(&bytes);
            t.seen(&v, v >= g.p);
            t.sample(|| format!("from_uniform_bytes<{len}>({v:x})"));
            if let Some(x) = t.guard("from_uniform_bytes", || format!("{len} bytes {v:x}"), || F::uniform(&bytes)) {
                expect(t, &g, "from_uniform_bytes", &x, &v);
            }
        }
        t.class_n(&format!("{len}-byte wide reductions"), n as u64);
    }
}

/// random(): canonical, a function of the generator only, and not skewed.
fn random<F: PF>(t: &mut Task, n: usize) {
    let g = Gen::of::<F>(&[]);
    let n = n.max(256);
    let bits = g.p.bits() as usize;
    let mut ones = vec![0u64; bits];
    let mut buckets = [0u64; 16];
    for i in 0..n {
        let mut r1 = Rng::named(t.conf.seed, &format!("{}{i}", t.name));
        let mut r2 = r1.clone();
        if let Some((x, y)) = t.guard("random", || format!("draw {i}"), || (F::random(&mut r1), F::random(&mut r2))) {
            let raw = x.raw();
            t.check(raw < g.p, "random/canonical", || format!("{raw:x}"));
            t.check(x == y, "random/deterministic", || format!("same generator state gave {x:?} and {y:?}"));
            let v = x.val();
            t.seen(&v, true);
            for (k, o) in ones.iter_mut().enumerate().take(bits - 8) {
                *o += v.bit(k as u64) as u64;
            }
            let q: B = (&v * 16u32) / &g.p;
            buckets[q.to_usize().unwrap().min(15)] += 1;
        }
    }
    // 10 standard deviations: probability of a false alarm below 1e-20
    let lim = 5.0 * (n as f64).sqrt() + 1.0;
    for (k, o) in ones.iter().enumerate().take(bits - 8) {
        let d = (*o as f64 - n as f64 / 2.0).abs();
        t.check(d <= lim, "random/bit bias", || format!("bit {k} set in {o} of {n} draws"));
    }
    let e = n as f64 / 16.0;
    for (k, o) in buckets.iter().enumerate() {
        t.check((*o as f64 - e).abs() <= 10.0 * (e * 15.0 / 16.0).sqrt() + 1.0, "random/range bias", || format!("{o} of {n} draws in sixteenth {k}"));
    }
    t.check(t.evals >= n as u64 / 2, "random/observed", || "too few draws".into());
}

fn main() {
    let conf = Conf::from_args();
    let mut jobs = vec![];
    macro_rules! f {
        ($t:ty) => {
            jobs.push(job(format!("{}/ints", <$t>::NAME), |t| { let n = t.n(40_000); ints::<$t>(t, n) }));
            jobs.push(job(format!("{}/small-exhaustive", <$t>::NAME), |t| small_exhaustive::<$t>(t)));
            jobs.push(job(format!("{}/wide", <$t>::NAME), |t| { let n = t.n(30_000); wide::<$t>(t, n) }));
            jobs.push(job(format!("{}/random", <$t>::NAME), |t| { let n = t.n(4_000); random::<$t>(t, n) }));
        };
    }
    h2c_monitor::for_each_field!(f);
    #[cfg(feature = "asm")]
    jobs.push(job("bn256::Fr/table", |t| {
        use halo2curves::bn256::Fr;
        let g = Gen::of::<Fr>(&[]);
        let table = &halo2curves::bn256::FR_TABLE;
        t.check(table.len() == 65536, "table length", || format!("{}", table.len()));
        let mut w = B::zero();
        for (i, e) in table.iter().enumerate() {
            t.seen(&i, i > 1);
            let raw = e.raw();
            t.check(raw == w, "table entry", || format!("entry {i} holds {raw:x}, expected {w:x}"));
            w = addm(&w, &g.r, &g.p);
        }
    }));
    run(conf, jobs)
}
