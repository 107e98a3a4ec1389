//! C12: point encodings.  Encoders write the documented format; decoders
//! accept exactly the encodings of curve points (of the prime order subgroup,
//! for the checked decoders), return the point they stand for, and never panic.
use h2c_monitor::*;
use halo2curves::group::{GroupEncoding, UncompressedEncoding};
use halo2curves::serde::SerdeObject;
use num_traits::{One, Zero};
use std::io::Cursor;

/// The documented formats, over the reference curve.
struct Fmt<'a> {
    c: &'a CurveRef,
    flags: Flags,
    be: bool,
    /// bytes of one base field element and of one prime field coefficient
    fs: usize,
    cs: usize,
    std_sign: bool,
}

impl Fmt<'_> {
    fn field(&self, v: &R2) -> Vec<u8> {
        let one = |x: &B| if self.be { to_be(x, self.cs) } else { to_le(x, self.cs) };
        if self.c.deg == 1 {
            one(&v.0)
        } else {
            [one(&v.0), one(&v.1)].concat()
        }
    }
    fn unfield(&self, s: &[u8]) -> Option<R2> {
        let one = |s: &[u8]| {
            let v = if self.be { be(s) } else { le(s) };
            if &v < self.c.p() {
                Some(v)
            } else {
                None
            }
        };
        Some(if self.c.deg == 1 { (one(s)?, B::zero()) } else { (one(&s[..self.cs])?, one(&s[self.cs..])?) })
    }
    fn sign(&self, y: &R2) -> bool {
        if self.std_sign {
            // sgn0 of RFC 9380
            y.0.bit(0) || (y.0.is_zero() && y.1.bit(0))
        } else {
            let big = |v: &B| v > &negm(v, self.c.p());
            big(&y.1) || (y.1.is_zero() && big(&y.0))
        }
    }
    fn flag_at(&self, n: usize) -> usize {
        if self.flags == Flags::Extra || self.be {
            0
        } else {
            n - 1
        }
    }
    fn size(&self) -> usize {
        self.fs + (self.flags == Flags::Extra) as usize
    }
    fn bits(&self) -> (u8, u8, u8) {
        // sign, identity, compressed
        match self.flags {
            Flags::Extra | Flags::TwoSpare => (0x80, 0x40, 0),
            Flags::ThreeSpare => (0x20, 0x40, 0x80),
        }
    }
    fn pack(&self, x: &[u8], sign: bool, id: bool, comp: bool) -> Vec<u8> {
        let mut v = if self.flags == Flags::Extra { vec![0] } else { vec![] };
        v.extend_from_slice(x);
        let k = self.flag_at(v.len());
        let (s, i, c) = self.bits();
        v[k] |= if sign { s } else { 0 } | if id { i } else { 0 } | if comp { c } else { 0 };
        v
    }
    fn compress(&self, p: &RP) -> Vec<u8> {
        match p {
            None => self.pack(&vec![0; self.fs], false, true, true),
            Some((x, y)) => self.pack(&self.field(x), self.sign(y), false, true),
        }
    }
    /// None: not an encoding of a point of the curve.
    fn decompress(&self, s: &[u8]) -> Option<RP> {
        let mut v = s.to_vec();
        let k = self.flag_at(v.len());
        let (sb, ib, cb) = self.bits();
        let f = v[k];
        v[k] &= !(sb | ib | cb);
        if cb != 0 && f & cb == 0 {
            return None;
        }
        if self.flags == Flags::Extra && v[k] != 0 {
            return None;
        }
        let x = self.unfield(if self.flags == Flags::Extra { &v[1..] } else { &v })?;
        let (sign, id) = (f & sb != 0, f & ib != 0);
        if id {
            return if CurveRef::is_zero_f(&x) && !sign { Some(None) } else { None };
        }
        let y = self.c.sqrt(&self.c.g(&x))?;
        let y = if self.sign(&y) == sign { y } else { self.c.neg_f(&y) };
        // (no point of these curves has y = 0)
        if self.sign(&y) == sign {
            Some(Some((x, y)))
        } else {
            None
        }
    }
    fn uncompress(&self, s: &[u8]) -> Option<RP> {
        let (x, y) = (self.unfield(&s[..self.fs])?, self.unfield(&s[self.fs..])?);
        Some(if CurveRef::is_zero_f(&x) && CurveRef::is_zero_f(&y) { None } else { Some((x, y)) })
    }
    /// Montgomery words, little endian.
    fn raw(&self, g: &Gen, v: &[&R2]) -> Vec<u8> {
        v.iter()
            .flat_map(|v| {
                let mut s = to_le(&g.mont(&v.0), self.cs);
                if self.c.deg == 2 {
                    s.extend(to_le(&g.mont(&v.1), self.cs));
                }
                s
            })
            .collect()
    }
    fn unraw(&self, g: &Gen, s: &[u8]) -> Option<Vec<R2>> {
        let w: Option<Vec<B>> = s
            .chunks(self.cs)
            .map(|s| {
                let v = le(s);
                if v < g.p {
                    Some(g.unmont(&v))
                } else {
                    None
                }
            })
            .collect();
        let w = w?;
        Some(if self.c.deg == 1 {
            w.into_iter().map(|v| (v, B::zero())).collect()
        } else {
            w.chunks(2).map(|v| (v[0].clone(), v[1].clone())).collect()
        })
    }
}

fn hexs(s: &[u8]) -> String {
    s.iter().map(|b| format!("{b:02x}")).collect()
}

/// Damages an encoding in one of the ways a decoder must see through.
fn mutate(r: &mut Rng, s: &mut Vec<u8>, p: &B, cs: usize, be: bool, lead: usize) -> &'static str {
    let n = s.len();
    match r.below(10) {
        0 => {
            let k = r.below(n);
            s[k] ^= 1 << r.below(8);
            "one bit flipped"
        }
        1 => {
            let k = if r.bool() { 0 } else { n - 1 };
            s[k] ^= 1 << (4 + r.below(4));
            "a flag flipped"
        }
        2 => {
            let k = if r.bool() { 0 } else { n - 1 };
            s[k] = r.u64() as u8;
            "flag byte replaced"
        }
        3 | 4 => {
            // add p to one coefficient where it fits
            let nc = (n - lead) / cs;
            let k = lead + r.below(nc) * cs;
            let part = &s[k..k + cs];
            let top = if be { s[k] & 0xe0 } else { s[k + cs - 1] & 0xc0 };
            let mut q = part.to_vec();
            if be {
                q[0] &= 0x1f
            } else {
                q[cs - 1] &= 0x3f
            }
            let v = if be { crate::be(&q) } else { le(&q) };
            let v = if r.bool() { v + p } else { p + b(r.below(3) as u64) };
            if v.bits() as usize <= 8 * cs {
                let mut q = if be { to_be(&v, cs) } else { to_le(&v, cs) };
                if be {
                    q[0] |= top
                } else {
                    q[cs - 1] |= top
                }
                s[k..k + cs].copy_from_slice(&q);
            }
            "non-canonical coefficient"
        }
        5 => {
            let f = if r.bool() { 0 } else { 0xff };
            s.iter_mut().for_each(|x| *x = f);
            let k = r.below(n);
            if r.bool() {
                s[k] = r.u64() as u8;
            }
            "constant bytes"
        }
        6 => {
            *s = r.bytes(n);
            "random bytes"
        }
        7 => {
            *s = r.bytes(n);
            s[0] &= 0x3f;
            s[n - 1] &= 0x1f;
            "random bytes without flags"
        }
        8 => {
            s.reverse();
            "reversed"
        }
        _ => "intact",
    }
}

macro_rules! codec {
    ($t:ty, $a:ty) => {
        |t: &mut Task, n: usize| {
            type C = $t;
            type A = $a;
            type Cmp = <A as GroupEncoding>::Repr;
            type Unc = <A as UncompressedEncoding>::Uncompressed;
            let w = World::<C>::new(&t.conf.dict.clone(), &mut t.rng, 24);
            let c = &w.c;
            let fs = <C as PC>::FS;
            let f = Fmt { c, flags: <C as PC>::FLAGS, be: <C as PC>::BE, fs, cs: if c.deg == 1 { fs } else { fs / 2 }, std_sign: <C as PC>::STD_SIGN };
            let zero = c.f.zero();
            let xzero = c.sqrt(&c.g(&zero)).map(|y| (zero.clone(), y));
            for i in 0..n {
                let p = match (i % 10, &xzero) {
                    (0, Some(q)) => Some(q.clone()),
                    (1, _) => w.related(&mut t.rng, &None),
                    _ => w.point(&mut t.rng),
                };
                let pa: A = C::aff(&p);
                let pp: C = w.proj(&mut t.rng, &p);
                let d = || format!("P={} {:x?}", show(&p), pp.xyz());
                t.seen(&(&p, pp.xyz()), true);
                t.sample(d);
                // a sign that does not depend on y cannot be told apart: such
                // points (y with a zero first coefficient) are not generated
                let inside = c.in_subgroup(&p);
                t.class(if p.is_none() { "encode the identity" } else if inside { "encode a subgroup point" } else { "encode another point" });
                // ------------------------------------------------ encoders
                let (want, xs) = (f.compress(&p), p.clone().unwrap_or((zero.clone(), zero.clone())));
                let wantu = [f.field(&xs.0), f.field(&xs.1)].concat();
                if let Some(v) = t.guard("encode", d, || (pa.to_bytes(), pp.to_bytes(), pa.to_uncompressed(), serde_json::to_string(&pa).unwrap(), serde_json::to_string(&pp).unwrap(), bincode::serialize(&pa).unwrap(), bincode::serialize(&pp).unwrap())) {
                    t.check(v.0.as_ref() == want && v.1.as_ref() == want, "to_bytes", || format!("{} / {}, expected {}; {}", hexs(v.0.as_ref()), hexs(v.1.as_ref()), hexs(&want), d()));
                    t.check(v.2.as_ref() == wantu, "to_uncompressed", || format!("{}, expected {}; {}", hexs(v.2.as_ref()), hexs(&wantu), d()));
                    let js = format!("\"{}\"", hexs(&want));
                    t.check(v.3 == js && v.4 == js && v.5 == want && v.6 == want, "serialize", d);
                }
                let rawa = f.raw(&w.g, &[&xs.0, &xs.1]);
                let tr = pp.xyz();
                let rawp = f.raw(&w.g, &[&tr[0], &tr[1], &tr[2]]);
                if let Some(v) = t.guard("encode raw", d, || {
                    let (mut x, mut y) = (vec![], vec![]);
                    pa.write_raw(&mut x).unwrap();
                    pp.write_raw(&mut y).unwrap();
                    (pa.to_raw_bytes(), pp.to_raw_bytes(), x, y)
                }) {
                    t.check(v.0 == rawa && v.2 == rawa && v.1 == rawp && v.3 == rawp, "to_raw_bytes", d);
                }
                if let Some(v) = t.guard("unchecked raw", d, || (A::from_raw_bytes_unchecked(&rawa), C::from_raw_bytes_unchecked(&rawp), A::read_raw_unchecked(&mut Cursor::new(&rawa)), C::read_raw_unchecked(&mut Cursor::new(&rawp)))) {
                    t.check(C::rp_aff(&v.0) == p && C::rp_aff(&v.2) == p && v.1.xyz() == tr && v.3.xyz() == tr, "unchecked raw round trip", d);
                }

                // ------------------------------------------------ compressed
                let mut s = match i % 3 {
                    0 | 1 => want.clone(),
                    _ => {
                        // any canonical x, any flags
                        let x = if t.rng.one_in(6) { zero.clone() } else { w.coord(&mut t.rng) };
                        let (a, bb, cc) = (t.rng.bool(), t.rng.one_in(5), !t.rng.one_in(5));
                        f.pack(&f.field(&x), a, bb, cc)
                    }
                };
                let how = if i % 3 == 0 { "intact" } else { mutate(&mut t.rng, &mut s, c.p(), f.cs, f.be, (f.flags == Flags::Extra) as usize) };
                let e = f.decompress(&s);
                let sub = e.as_ref().map_or(false, |p| c.in_subgroup(p));
                let d = || format!("compressed {} ({how}); expected {}", hexs(&s), e.as_ref().map_or("rejection".to_string(), show));
                t.seen(&s, true);
                t.class(match (&e, sub) {
                    (None, _) => "compressed: invalid",
                    (Some(None), _) => "compressed: identity",
                    (_, true) => "compressed: subgroup point",
                    _ => "compressed: point outside the subgroup",
                });
                t.class(how);
                let checked = if sub { e.clone() } else { None };
                let mut rep = Cmp::default();
                rep.as_mut().copy_from_slice(&s);
                t.check(rep.as_ref().len() == f.size(), "compressed size", d);
                if let Some(v) = t.guard("from_bytes", d, || (opt(A::from_bytes(&rep)), opt(C::from_bytes(&rep)))) {
                    t.check(v.0.map(|p| C::rp_aff(&p)) == checked && v.1.map(|p| p.rp(c)) == checked, "from_bytes", || format!("got {:?} {:?}; {}", v.0, v.1, d()));
                }
                if let Some(v) = t.guard("from_bytes_unchecked", d, || (opt(A::from_bytes_unchecked(&rep)), opt(C::from_bytes_unchecked(&rep)))) {
                    // unchecked: a valid encoding decodes to its point; whatever is
                    // returned must still be what the bytes say
                    t.check(v.0.map(|p| C::rp_aff(&p)) == e && v.1.map(|p| p.rp(c)) == e, "from_bytes_unchecked", || format!("got {:?} {:?}; {}", v.0, v.1, d()));
                }
                let js = format!("\"{}\"", hexs(&s));
                if let Some(v) = t.guard("deserialize", d, || (serde_json::from_str::<A>(&js).ok(), serde_json::from_str::<C>(&js).ok(), bincode::deserialize::<A>(&s).ok(), bincode::deserialize::<C>(&s).ok())) {
                    let ok = v.0.map(|p| C::rp_aff(&p)) == checked && v.2.map(|p| C::rp_aff(&p)) == checked && v.1.map(|p| p.rp(c)) == checked && v.3.map(|p| p.rp(c)) == checked;
                    t.check(ok, "deserialize", || format!("got {:?} {:?} {:?} {:?}; {}", v.0, v.1, v.2, v.3, d()));
                }
                if i % 8 == 3 {
                    let step = 1 + t.rng.below(f.size() + 3);
                    if let Some(v) = t.guard("deserialize", d, || ([formats::from_json::<A>(&js, step), formats::from_binary::<A>(&s, step)].concat(), [formats::from_json::<C>(&js, step), formats::from_binary::<C>(&s, step)].concat())) {
                        for ((how, x), (_, y)) in v.0.into_iter().zip(v.1) {
                            t.check(x.map(|p| C::rp_aff(&p)) == checked && y.map(|p| p.rp(c)) == checked, how, || format!("got {x:?} {y:?}; {}", d()));
                        }
                    }
                    let wj = format!("\"{}\"", hexs(&want));
                    if let Some(v) = t.guard("serialize", d, || [formats::to_all(&pa, &wj, &want), formats::to_all(&pp, &wj, &want)].concat()) {
                        for (how, x, y) in v {
                            t.check(x == y, how, || format!("{}; {}", hexs(&x), d()));
                        }
                    }
                    t.class("other ways to read and write serde formats");
                    for bad in formats::malformed(&hexs(&want), i / 8) {
                        let js = format!("\"{bad}\"");
                        if let Some(v) = t.guard("malformed text", || bad.clone(), || (serde_json::from_str::<A>(&js).ok(), serde_json::from_str::<C>(&js).ok())) {
                            t.check(v.0.is_none() && v.1.is_none(), "malformed text", || format!("{bad:?} -> {v:?}"));
                        }
                    }
                    t.class("malformed text");
                }
                if i % 4 == 0 {
                    // serde input of the wrong length or with bad digits
                    let k = t.rng.below(f.size());
                    let (short, bad) = (format!("\"{}\"", hexs(&s[..k])), format!("\"{}zz\"", hexs(&s[1..])));
                    let long = format!("\"{}00\"", hexs(&s));
                    if let Some(v) = t.guard("malformed", d, || [serde_json::from_str::<A>(&short).is_err(), serde_json::from_str::<C>(&bad).is_err(), serde_json::from_str::<A>(&long).is_err(), bincode::deserialize::<A>(&s[..k]).is_err(), bincode::deserialize::<C>(&s[..k]).is_err()]) {
                        t.check(v.iter().all(|x| *x), "malformed serde input", || format!("{v:?} cut at {k}; {}", d()));
                    }
                }

                // ---------------------------------------------- uncompressed
                let mut s = wantu.clone();
                let how = match i % 4 {
                    0 => "intact",
                    1 => {
                        // right field elements, wrong curve
                        let y = w.coord(&mut t.rng);
                        s[fs..].copy_from_slice(&f.field(&y));
                        "y replaced"
                    }
                    _ => mutate(&mut t.rng, &mut s, c.p(), f.cs, f.be, 0),
                };
                let e = f.uncompress(&s);
                let good = e.as_ref().map_or(false, |p| c.on_curve(p) && c.in_subgroup(p));
                let d = || format!("uncompressed {} ({how})", hexs(&s));
                t.seen(&s, true);
                t.class(match (&e, good) {
                    (None, _) => "uncompressed: not canonical",
                    (_, true) => "uncompressed: subgroup point",
                    _ => "uncompressed: not a subgroup point",
                });
                let mut rep = Unc::default();
                t.check(rep.as_ref().len() == 2 * fs, "uncompressed size", d);
                rep.as_mut().copy_from_slice(&s);
                if let Some(v) = t.guard("from_uncompressed", d, || (opt(A::from_uncompressed(&rep)), opt(A::from_uncompressed_unchecked(&rep)))) {
                    let want = if good { e.clone() } else { None };
                    t.check(v.0.map(|p| C::rp_aff(&p)) == want, "from_uncompressed", || format!("got {:?}, expected {want:x?}; {}", v.0, d()));
                    t.check(v.1.map(|p| C::rp_aff(&p)) == e, "from_uncompressed_unchecked", || format!("got {:?}, expected {e:x?}; {}", v.1, d()));
                }

                // ------------------------------------------------------- raw
                let (mut sa, mut sp) = (rawa.clone(), rawp.clone());
                let how = match i % 4 {
                    0 => "intact",
                    1 => {
                        let k = t.rng.below(sa.len() / f.cs);
                        let v = to_le(&w.g.mont(&w.coord(&mut t.rng).0), f.cs);
                        sa[k * f.cs..(k + 1) * f.cs].copy_from_slice(&v);
                        let k = t.rng.below(sp.len() / f.cs);
                        sp[k * f.cs..(k + 1) * f.cs].copy_from_slice(&v);
                        "coefficient replaced"
                    }
                    2 => {
                        sp[2 * fs..].iter_mut().for_each(|x| *x = 0);
                        "z = 0"
                    }
                    _ => {
                        mutate(&mut t.rng, &mut sa, c.p(), f.cs, false, 0);
                        mutate(&mut t.rng, &mut sp, c.p(), f.cs, false, 0)
                    }
                };
                let ea: Option<RP> = f.unraw(&w.g, &sa).and_then(|v| {
                    let p = if CurveRef::is_zero_f(&v[0]) && CurveRef::is_zero_f(&v[1]) { None } else { Some((v[0].clone(), v[1].clone())) };
                    if c.on_curve(&p) { Some(p) } else { None }
                });
                let ep: Option<[R2; 3]> = f.unraw(&w.g, &sp).and_then(|v| {
                    let v: [R2; 3] = v.try_into().unwrap();
                    if c.on_curve_proj(&v) { Some(v) } else { None }
                });
                let d = || format!("raw affine {} projective {} ({how})", hexs(&sa), hexs(&sp));
                t.seen(&(&sa, &sp), true);
                t.class(if ea.is_some() { "raw affine: valid" } else { "raw affine: invalid" });
                t.class(if ep.is_some() { "raw projective: valid" } else { "raw projective: invalid" });
                if let Some(v) = t.guard("from_raw_bytes", d, || {
                    let mut ca = Cursor::new([&sa[..], &[1, 2, 3]].concat());
                    let mut cp = Cursor::new([&sp[..], &[1, 2, 3]].concat());
                    let (x, y) = (A::read_raw(&mut ca).ok(), C::read_raw(&mut cp).ok());
                    (A::from_raw_bytes(&sa), C::from_raw_bytes(&sp), x, y, ca.position(), cp.position())
                }) {
                    t.check(v.0.map(|p| C::rp_aff(&p)) == ea, "from_raw_bytes affine", || format!("got {:?}; {}", v.0, d()));
                    t.check(v.2.map(|p| C::rp_aff(&p)) == ea, "read_raw affine", || format!("got {:?}; {}", v.2, d()));
                    t.check(v.1.map(|p| p.xyz()) == ep, "from_raw_bytes projective", || format!("got {:?}; {}", v.1, d()));
                    t.check(v.3.map(|p| p.xyz()) == ep, "read_raw projective", || format!("got {:?}; {}", v.3, d()));
                    if ea.is_some() && ep.is_some() {
                        t.check(v.4 == 2 * fs as u64 && v.5 == 3 * fs as u64, "read_raw consumes its own bytes only", d);
                    }
                }
                if i % 4 == 0 {
                    let k = t.rng.below(3 * fs + 9);
                    let s: Vec<u8> = rawp.iter().cycle().take(k).cloned().collect();
                    let d = || format!("{k} raw bytes");
                    if let Some(v) = t.guard("raw length", d, || (A::from_raw_bytes(&s).is_some(), C::from_raw_bytes(&s).is_some(), A::read_raw(&mut Cursor::new(&s)).is_ok(), C::read_raw(&mut Cursor::new(&s)).is_ok())) {
                        t.check((k == 2 * fs || !v.0) && (k == 3 * fs || !v.1) && (k >= 2 * fs || !v.2) && (k >= 3 * fs || !v.3), "raw length", || format!("{v:?}: {}", d()));
                    }
                }
            }
            let _ = B::one();
        }
    };
}

fn main() {
    let conf = Conf::from_args();
    let mut jobs = vec![];
    macro_rules! add {
        ($t:ty) => {
            let c = <$t>::reference();
            let n = if c.deg == 2 {
                100
            } else if c.is_prime_order() {
                700
            } else {
                250
            };
            for part in 0..2 {
                jobs.push(job(format!("{}/codec{part}", <$t as PC>::NAME), move |t: &mut Task| {
                    let n = t.n(n);
                    codec!($t, <$t as PC>::Aff)(t, n)
                }));
            }
        };
    }
    for_each_curve!(add);
    run(conf, jobs);
}
