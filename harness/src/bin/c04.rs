//! C04: field decoders accept exactly the canonical encodings and round-trip.
use h2c_monitor::fields::*;
use h2c_monitor::gen::*;
use h2c_monitor::*;
use halo2curves::serde::endian::{Endian, EndianRepr};
use halo2curves::serde::SerdeObject;
use num_traits::{One, Zero};
use std::io::Cursor;

fn run_field<F: PF + EndianRepr>(t: &mut Task, n: usize) {
    let g = Gen::of::<F>(&t.conf.dict.clone());
    let p = g.p.clone();
    let (size, be) = (F::size(), F::BIG_ENDIAN);
    let wide_max: B = (B::one() << (8 * size)) - 1u32;
    t.check(matches!(F::ENDIAN, Endian::BE) == be, "endianness", || "declared endianness differs from the documented one".into());
    for i in 0..n {
        // an arbitrary integer of the encoding's width, biased to the boundary
        let v = match i % 8 {
            0 => g.val(&mut t.rng),
            1 => &p + b(t.rng.below(4) as u64),
            2 => &p - 1u32 - b(t.rng.below(4) as u64),
            3 => {
                // differs from p in exactly one limb
                let mut l = g.pl.clone();
                let k = t.rng.below(l.len());
                l[k] = match t.rng.below(3) {
                    0 => l[k].wrapping_add(1),
                    1 => l[k].wrapping_sub(1),
                    _ => limb(&mut t.rng, l[k]),
                };
                from_limbs(&l)
            }
            4 => {
                let x = &wide_max - b(t.rng.below(3) as u64);
                x
            }
            5 => {
                // canonical value plus a multiple of p that still fits
                let k = 1 + t.rng.below(3) as u64;
                let x = g.val(&mut t.rng) + &p * k;
                if x <= wide_max { x } else { g.wide(&mut t.rng) }
            }
            _ => g.wide(&mut t.rng),
        };
        let canon = v < p;
        t.class(if canon { "canonical" } else { "non-canonical" });
        t.seen(&v, !v.is_zero());
        t.sample(|| format!("decode {v:x}"));
        let lev = to_le(&v, size);
        let natural = if be { to_be(&v, size) } else { lev.clone() };
        let verdict = |t: &mut Task, op: &str, r: Option<F>| {
            let ok = match &r {
                Some(x) => canon && x.raw() == mulm(&v, &g.r, &p),
                None => !canon,
            };
            t.check(ok, op, || {
                format!("{op} of {v:x} ({}): {:?}", if canon { "canonical" } else { "not canonical" }, r.map(|r| r.val()))
            });
        };
        let d = || format!("{v:x}");
        if let Some(r) = t.guard("from_repr", d, || Option::<F>::from(F::from_repr(F::repr_from(&lev)))) {
            verdict(t, "from_repr", r);
        }
        if let Some(r) = t.guard("from_repr_vartime", d, || F::from_repr_vartime(F::repr_from(&lev))) {
            verdict(t, "from_repr_vartime", r);
        }
        if let Some(r) = t.guard("from_bytes", d, || F::i_from_bytes(&natural)) {
            verdict(t, "from_bytes", r);
        }
        if let Some(r) = t.guard("EndianRepr::from_bytes", d, || Option::<F>::from(<F as EndianRepr>::from_bytes(&natural))) {
            verdict(t, "EndianRepr::from_bytes", r);
        }
        // serde: hex string when human readable, the canonical bytes otherwise
        let hexs: String = lev.iter().map(|b| format!("{b:02x}")).collect();
        let json = format!("\"{hexs}\"");
        if let Some(r) = t.guard("serde_json", d, || serde_json::from_str::<F>(&json).ok()) {
            verdict(t, "serde_json", r);
        }
        if let Some(r) = t.guard("bincode", d, || bincode::deserialize::<F>(&lev).ok()) {
            verdict(t, "bincode", r);
        }
        if i % 8 == 5 {
            let step = 1 + t.rng.below(size + 3);
            if let Some(r) = t.guard("serde", d, || [formats::from_json::<F>(&json, step), formats::from_binary::<F>(&lev, step)].concat()) {
                for (how, r) in r {
                    verdict(t, how, r);
                }
            }
            if canon {
                let x: F = make(&g, &mut t.rng, &v);
                if let Some(r) = t.guard("serde encode", d, || formats::to_all(&x, &json, &lev)) {
                    for (how, got, want) in r {
                        t.check(got == want, how, || format!("{v:x} -> {got:02x?}"));
                    }
                }
            }
            t.class("other ways to read and write serde formats");
            if i % 32 == 5 {
                for bad in formats::malformed(&hexs, i / 32) {
                    if let Some(r) = t.guard("malformed text", || bad.clone(), || serde_json::from_str::<F>(&format!("\"{bad}\"")).ok()) {
                        t.check(r.is_none(), "malformed text", || format!("{bad:?} -> {:?}", r.map(|r| r.val())));
                    }
                }
                t.class("malformed text");
            }
        }
        // raw (Montgomery) form: the integer itself must be below p
        let raw_verdict = |t: &mut Task, op: &str, r: Option<F>| {
            let ok = match &r {
                Some(x) => canon && x.to_raw_bytes() == lev && x.val() == mulm(&v, &g.rinv, &p),
                None => !canon,
            };
            t.check(ok, op, || format!("{op} of raw limbs {v:x}: {:?}", r.map(|r| r.to_raw_bytes())));
        };
        if let Some(r) = t.guard("from_raw_bytes", d, || F::from_raw_bytes(&lev)) {
            raw_verdict(t, "from_raw_bytes", r);
        }
        if let Some(r) = t.guard("read_raw", d, || F::read_raw(&mut Cursor::new(&lev)).ok()) {
            raw_verdict(t, "read_raw", r);
        }
        if canon {
            if let Some((x, y)) = t.guard("unchecked", d, || (F::from_raw_bytes_unchecked(&lev), F::read_raw_unchecked(&mut Cursor::new(&lev)))) {
                raw_verdict(t, "from_raw_bytes_unchecked", Some(x));
                raw_verdict(t, "read_raw_unchecked", Some(y));
            }
            // encoders
            let x: F = make(&g, &mut t.rng, &v);
            if let Some((r, bt, eb, js, bc, raw, wr, rv, rr)) = t.guard("encode", d, || {
                let mut w = vec![];
                x.write_raw(&mut w).unwrap();
                (
                    x.to_repr().as_ref().to_vec(),
                    x.i_to_bytes(),
                    <F as EndianRepr>::to_bytes(&x),
                    serde_json::to_string(&x).unwrap(),
                    bincode::serialize(&x).unwrap(),
                    x.to_raw_bytes(),
                    w,
                    x.into_repr_value(),
                    x.into_repr_ref(),
                )
            }) {
                let m = to_le(&mulm(&v, &g.r, &p), size);
                t.check(r == lev, "to_repr", || format!("{v:x} -> {r:02x?}"));
                t.check(rv == lev && rr == lev, "into Repr", || format!("{v:x} -> {rv:02x?}"));
                t.check(bt == natural, "to_bytes", || format!("{v:x} -> {bt:02x?}"));
                t.check(eb == natural, "EndianRepr::to_bytes", || format!("{v:x} -> {eb:02x?}"));
                t.check(js == json, "serde_json encode", || format!("{v:x} -> {js}"));
                t.check(bc == lev, "bincode encode", || format!("{v:x} -> {bc:02x?}"));
                t.check(raw == m, "to_raw_bytes", || format!("{v:x} -> {raw:02x?}"));
                t.check(wr == m, "write_raw", || format!("{v:x} -> {wr:02x?}"));
            }
        }
        // wrong lengths are refused, not truncated or padded
        if i % 16 == 0 {
            let len = match t.rng.below(8) {
                0 => 0,
                1 => size - 1,
                2 => size + 1,
                3 => size * 2,
                4 => size - 8,
                5 => size + 8,
                _ => t.rng.below(3 * size),
            };
            if len != size {
                let bytes = if t.rng.bool() { vec![0; len] } else { let mut q = lev.clone(); q.resize(len, 0); q };
                if let Some(r) = t.guard("from_raw_bytes length", || format!("{len} bytes"), || F::from_raw_bytes(&bytes)) {
                    t.check(r.is_none(), "from_raw_bytes length", || format!("accepted {len} bytes instead of {size}"));
                }
                t.class("wrong length");
                if len < size {
                    if let Some(r) = t.guard("read_raw length", || format!("{len} bytes"), || F::read_raw(&mut Cursor::new(&bytes)).is_ok()) {
                        t.check(!r, "read_raw length", || format!("accepted {len} bytes instead of {size}"));
                    }
                    if let Some(r) = t.guard("bincode length", || format!("{len} bytes"), || bincode::deserialize::<F>(&bytes).is_ok()) {
                        t.check(!r, "bincode length", || format!("accepted {len} bytes instead of {size}"));
                    }
                }
                let hs: String = bytes.iter().map(|b| format!("{b:02x}")).collect();
                if let Some(r) = t.guard("json length", || format!("{len} bytes"), || serde_json::from_str::<F>(&format!("\"{hs}\"")).is_ok()) {
                    t.check(!r, "json length", || format!("accepted {len} bytes instead of {size}"));
                }
            }
        }
        // decimal strings
        if i % 16 == 3 {
            let s = v.to_str_radix(10);
            let mut txt = s.clone();
            let kind = t.rng.below(6);
            let valid = match kind {
                0 => { txt.insert(0, '0'); false }
                1 => { txt.push(*t.rng.pick(&['x', ' ', '-', '.', 'a'])); false }
                2 => { txt = String::new(); false }
                3 => { txt.insert(0, '-'); false }
                _ => true,
            };
            if let Some(r) = t.guard("from_str_vartime", || txt.clone(), || F::from_str_vartime(&txt)) {
                let ok = match (&r, valid) {
                    (Some(x), true) => x.raw() == mulm(&(&v % &p), &g.r, &p),
                    (None, false) => true,
                    _ => false,
                };
                t.class("decimal string");
                t.check(ok, "from_str_vartime", || format!("{txt:?} -> {:?}", r.map(|r| r.val())));
            }
        }
    }
}

fn main() {
    let conf = Conf::from_args();
    let mut jobs = vec![];
    macro_rules! f {
        ($t:ty) => {
            for k in 0..3 {
                jobs.push(job(format!("{}/codec{k}", <$t>::NAME), |t| { let n = t.n(12_000); run_field::<$t>(t, n) }));
            }
        };
    }
    h2c_monitor::for_each_field!(f);
    run(conf, jobs)
}
