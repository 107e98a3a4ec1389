//! C21: reading and writing through streams that deliver in pieces, are
//! interrupted, fail, or end early.  The stream logs every event; the oracle
//! computes from the plan which bytes and which outcome the caller must see.
use h2c_monitor::fields::PF;
use h2c_monitor::*;
use halo2curves as h;
use halo2curves::ff_ext::quadratic::QuadExtField;
use halo2curves::serde::SerdeObject;
use std::fmt::Debug;
use std::io::{Error, ErrorKind, Read, Write};

#[derive(Clone, Copy, Debug, Hash, PartialEq)]
enum Ev {
    /// deliver (or accept) up to this many bytes
    Pass(usize),
    Interrupt,
    Fail(u8),
    /// end of stream, or a writer that accepts nothing
    End,
}
const KINDS: [ErrorKind; 6] = [
    ErrorKind::WouldBlock,
    ErrorKind::BrokenPipe,
    ErrorKind::InvalidData,
    ErrorKind::UnexpectedEof,
    ErrorKind::Other,
    ErrorKind::TimedOut,
];

/// A stream that follows a plan, then passes everything.
struct Stream {
    plan: Vec<Ev>,
    at: usize,
    data: Vec<u8>,
    pos: usize,
    calls: usize,
    /// bytes asked for in one call, at most
    widest: usize,
    log: Vec<String>,
}
impl Stream {
    fn new(plan: &[Ev], data: Vec<u8>) -> Self {
        Stream { plan: plan.to_vec(), at: 0, data, pos: 0, calls: 0, widest: 0, log: vec![] }
    }
    fn next(&mut self, want: usize) -> Ev {
        self.calls += 1;
        self.widest = self.widest.max(want);
        assert!(self.calls < 100_000, "CUT: the caller keeps calling a stream that gives nothing");
        let e = self.plan.get(self.at).copied().unwrap_or(Ev::Pass(usize::MAX));
        // an empty request tells nothing, and uses nothing up
        if want > 0 {
            self.at += 1;
        }
        self.log.push(format!("{e:?}/{want}"));
        e
    }
}
impl Read for Stream {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        match self.next(buf.len()) {
            Ev::Pass(n) => {
                let n = n.min(buf.len()).min(self.data.len() - self.pos);
                buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
                self.pos += n;
                Ok(n)
            }
            Ev::Interrupt => Err(Error::new(ErrorKind::Interrupted, "injected")),
            Ev::Fail(k) => Err(Error::new(KINDS[k as usize], "injected")),
            Ev::End => Ok(0),
        }
    }
}
impl Write for Stream {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        match self.next(buf.len()) {
            Ev::Pass(n) => {
                let n = n.min(buf.len());
                self.data.extend_from_slice(&buf[..n]);
                Ok(n)
            }
            Ev::Interrupt => Err(Error::new(ErrorKind::Interrupted, "injected")),
            Ev::Fail(k) => Err(Error::new(KINDS[k as usize], "injected")),
            Ev::End => Ok(0),
        }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn plan(r: &mut Rng, size: usize) -> Vec<Ev> {
    let style = r.below(7);
    let n = match style {
        0 => 0,
        _ => r.below(2 * size / 3 + 4),
    };
    let mut v: Vec<Ev> = (0..n)
        .map(|_| match style {
            1 => Ev::Pass(1),
            2 => Ev::Pass(1 + r.below(9)),
            3 => [Ev::Interrupt, Ev::Pass(1 + r.below(16))][r.below(2)],
            4 => Ev::Pass(*r.pick(&[1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 48, 64, 1000])),
            _ => match r.below(6) {
                0 => Ev::Interrupt,
                _ => Ev::Pass(1 + r.below(12)),
            },
        })
        .collect();
    if r.bool() && n > 0 {
        let e = match r.below(3) {
            0 => Ev::End,
            _ => Ev::Fail(r.below(KINDS.len()) as u8),
        };
        let i = r.below(v.len() + 1);
        v.insert(i, e);
    }
    v
}

/// A value with its raw bytes.
trait Val: SerdeObject + PartialEq + Debug + Copy + 'static {
    fn check_write(t: &mut Task, plan: &[Ev], v: &Self, bytes: &[u8]);
}
impl<T: SerdeObject + PartialEq + Debug + Copy + 'static> Val for T {
    fn check_write(t: &mut Task, plan: &[Ev], v: &T, bytes: &[u8]) {
        let mut s = Stream::new(plan, vec![]);
        let d = || format!("write of {v:?} with {plan:?}");
        let Some(r) = t.guard("write_raw", d, || v.write_raw(&mut s)) else { return };
        let d = || format!("got {r:?}, {} of {} bytes, log {:?}; {}", s.data.len(), bytes.len(), s.log, d());
        t.check(bytes.starts_with(&s.data), "written bytes", d);
        // the first fault that the writer met
        let fault = plan[..s.at.min(plan.len())].iter().find(|e| matches!(e, Ev::Fail(_) | Ev::End));
        match (fault, &r) {
            (None, Ok(())) => {
                t.check(s.data == bytes, "write lost bytes", d);
                t.class("write ok");
            }
            (Some(Ev::Fail(k)), Err(e)) => {
                t.check(e.kind() == KINDS[*k as usize], "error kind", d);
                t.class("write error reported");
            }
            (Some(Ev::End), Err(e)) => {
                t.check(e.kind() == ErrorKind::WriteZero, "error kind", d);
                t.class("write zero reported");
            }
            (Some(_), Ok(())) => {
                t.check(false, "write error swallowed", d);
            }
            (_, Err(_)) => {
                t.check(false, "write fails without a fault", d);
            }
        }
    }
}

/// What a reader that wants `size` bytes must see: how many bytes it gets, and
/// which fault stops it.
fn expect_read(plan: &[Ev], used: usize) -> Option<Ev> {
    plan[..used.min(plan.len())].iter().find(|e| matches!(e, Ev::Fail(_) | Ev::End)).copied()
}

fn stream_task<T: Val>(t: &mut Task, n: usize, mut gen: impl FnMut(&mut Rng) -> T, hostile: impl Fn(&mut Rng, &mut Vec<u8>)) {
    for i in 0..n {
        let v = gen(&mut t.rng);
        let bytes = v.to_raw_bytes();
        let size = bytes.len();
        let pl = plan(&mut t.rng, size);
        t.seen(&(&bytes, &pl), !pl.is_empty());
        t.sample(|| format!("{v:?} with {pl:?}"));
        T::check_write(t, &pl, &v, &bytes);

        // reading: trailing bytes must be left alone; sometimes too few are there
        let mut data = bytes.clone();
        let corrupt = i % 4 == 3;
        if corrupt {
            hostile(&mut t.rng, &mut data);
        }
        let tail = t.rng.below(20);
        let extra = t.rng.bytes(tail);
        data.extend_from_slice(&extra);
        let cut_at = if t.rng.one_in(5) { t.rng.below(size) } else { usize::MAX };
        data.truncate(cut_at);
        let d = |s: &Stream| format!("read of {size} bytes {:02x?} with {pl:?}: {} bytes taken, log {:?}", s.data, s.pos, s.log);
        let mut s = Stream::new(&pl, data.clone());
        t.begin("read_raw");
        let r = match quiet(|| T::read_raw(&mut s)) {
            Ok(r) => r,
            Err(m) => {
                t.check(false, "read_raw/panic", || format!("{m}; {}", d(&s)));
                continue;
            }
        };
        let fault = expect_read(&pl, s.at);
        let short = data.len() < size;
        t.check(s.pos <= size, "bytes beyond the element consumed", || d(&s));
        // bytes that stand for no value are refused, the rest is the value
        let good = if short { None } else { T::from_raw_bytes(&data[..size]) };
        match (&r, fault) {
            (Ok(x), None) => {
                t.check(s.pos == size, "incomplete element accepted", || d(&s));
                t.check(Some(*x) == good, "value read", || format!("{x:?}; {}", d(&s)));
                if !corrupt {
                    t.check(*x == v, "round trip", || format!("{x:?} instead of {v:?}; {}", d(&s)));
                }
                t.class("read ok");
            }
            (Ok(_), Some(_)) => {
                t.check(false, "read error swallowed", || d(&s));
            }
            (Err(e), Some(Ev::Fail(k))) => {
                t.check(e.kind() == KINDS[k as usize] || (good.is_none() && !short), "error kind", || format!("{e:?}; {}", d(&s)));
                t.class("read error reported");
            }
            (Err(e), Some(_)) => {
                t.check(e.kind() == ErrorKind::UnexpectedEof || (good.is_none() && !short), "error kind", || format!("{e:?}; {}", d(&s)));
                t.class("early end reported");
            }
            (Err(e), None) => {
                if short {
                    t.check(e.kind() == ErrorKind::UnexpectedEof || e.kind() == ErrorKind::InvalidData, "error kind", || format!("{e:?}; {}", d(&s)));
                    t.class("short stream reported");
                } else {
                    t.check(good.is_none(), "valid element refused", || format!("{e:?}; {}", d(&s)));
                    t.class("invalid element refused");
                }
            }
        }
        // the unchecked reader: a value, or a panic where the stream fails it
        if !corrupt {
            let mut s = Stream::new(&pl, data.clone());
            t.begin("read_raw_unchecked");
            match quiet(|| T::read_raw_unchecked(&mut s)) {
                Ok(x) => {
                    t.check(expect_read(&pl, s.at).is_none() && !short, "unchecked read error swallowed", || d(&s));
                    t.check(s.pos == size && x == v, "unchecked round trip", || format!("{x:?} instead of {v:?}; {}", d(&s)));
                }
                Err(m) => {
                    t.check(expect_read(&pl, s.at).is_some() || short, "unchecked read panics without a fault", || format!("{m}; {}", d(&s)));
                    t.class("unchecked read gives up");
                }
            }
        }
    }
    // a history: many values through one stream, both ways
    for _ in 0..(n / 40).max(1) {
        let vs: Vec<T> = (0..1 + t.rng.below(12)).map(|_| gen(&mut t.rng)).collect();
        let all: Vec<u8> = vs.iter().flat_map(|v| v.to_raw_bytes()).collect();
        let mut pl = plan(&mut t.rng, all.len());
        pl.retain(|e| !matches!(e, Ev::Fail(_) | Ev::End));
        t.begin("history");
        t.seen(&(&all, &pl), true);
        let d = || format!("{} values with {pl:?}", vs.len());
        let mut w = Stream::new(&pl, vec![]);
        if let Some(ok) = t.guard("history write", d, || vs.iter().all(|v| v.write_raw(&mut w).is_ok())) {
            t.check(ok && w.data == all, "history written", || format!("{:?}; {}", w.log, d()));
        }
        let mut s = Stream::new(&pl, all.clone());
        if let Some(back) = t.guard("history read", d, || vs.iter().map(|_| T::read_raw(&mut s).ok()).collect::<Vec<_>>()) {
            let ok = back.iter().zip(&vs).all(|(a, b)| *a == Some(*b));
            t.check(ok && s.pos == all.len(), "history read", || format!("{:?}; {}", s.log, d()));
            t.check(T::read_raw(&mut s).is_err(), "element read from an empty stream", d);
        }
        t.class_n("values in histories", vs.len() as u64);
    }
}

/// serde through binary streams.
fn bincode_task<T: serde::Serialize + serde::de::DeserializeOwned + PartialEq + Debug + Copy>(t: &mut Task, n: usize, mut gen: impl FnMut(&mut Rng) -> T) {
    for _ in 0..n {
        let v = gen(&mut t.rng);
        let bytes = bincode::serialize(&v).expect("serialize to memory");
        let pl = plan(&mut t.rng, bytes.len());
        t.seen(&(&bytes, &pl, 1), !pl.is_empty());
        let d = |s: &Stream| format!("{v:?} with {pl:?}: log {:?}", s.log);
        let mut s = Stream::new(&pl, vec![]);
        t.begin("serialize_into");
        match quiet(|| bincode::serialize_into(&mut s, &v)) {
            Err(m) => {
                t.check(false, "serialize/panic", || format!("{m} {}", d(&s)));
            }
            Ok(r) => {
                let f = expect_read(&pl, s.at);
                t.check(r.is_ok() == f.is_none() && bytes.starts_with(&s.data) && (r.is_err() || s.data == bytes), "serialize", || d(&s));
            }
        }
        let tail = t.rng.below(9);
        let mut data = [bytes.clone(), t.rng.bytes(tail)].concat();
        if t.rng.one_in(5) {
            data.truncate(t.rng.below(bytes.len()));
        }
        let short = data.len() < bytes.len();
        let mut s = Stream::new(&pl, data);
        t.begin("deserialize_from");
        match quiet(|| bincode::deserialize_from::<_, T>(&mut s)) {
            Err(m) => {
                t.check(false, "deserialize/panic", || format!("{m} {}", d(&s)));
            }
            Ok(r) => {
                let f = expect_read(&pl, s.at);
                t.check(r.is_ok() == (f.is_none() && !short), "deserialize", || d(&s));
                if let Ok(x) = r {
                    t.check(x == v && s.pos == bytes.len(), "deserialized value", || d(&s));
                    t.class("deserialized");
                }
            }
        }
    }
}

fn main() {
    let conf = Conf::from_args();
    let mut jobs = vec![];
    macro_rules! f {
        ($t:ty) => {
            jobs.push(job(format!("field/{}", <$t as PF>::NAME), |t: &mut Task| {
                let g = Gen::of::<$t>(&t.conf.dict.clone());
                let m = g.p.clone();
                let n = t.n(1200);
                stream_task::<$t>(t, n, |r| <$t>::of(&g.val(r)), |r, d| {
                    let (k, l) = (b(r.below(5) as u64), d.len());
                    let v = to_le(&(&m + k), l);
                    d.copy_from_slice(&v);
                    if r.bool() {
                        d[l - 1] = 0xff;
                    }
                });
                bincode_task::<$t>(t, n / 4, |r| <$t>::of(&g.val(r)));
            }));
        };
    }
    for_each_field!(f);
    macro_rules! q {
        ($n:expr, $t:ty) => {
            jobs.push(job(format!("field/{} Fp2", $n), |t: &mut Task| {
                let g = Gen::of::<$t>(&t.conf.dict.clone());
                let n = t.n(1200);
                stream_task::<QuadExtField<$t>>(t, n, |r| QuadExtField::<$t>::new(<$t>::of(&g.val(r)), <$t>::of(&g.val(r))), |r, d| {
                    let i = r.below(2) * d.len() / 2 + d.len() / 2 - 1;
                    d[i] = 0xff;
                });
                bincode_task::<QuadExtField<$t>>(t, n / 4, |r| QuadExtField::<$t>::new(<$t>::of(&g.val(r)), <$t>::of(&g.val(r))));
            }));
        };
    }
    q!("bn256", h::bn256::Fq);
    q!("bls12381", h::bls12381::Fq);
    q!("pluto", h::pluto_eris::Fp);
    macro_rules! c {
        ($t:ty) => {
            jobs.push(job(format!("curve/{}", <$t as PC>::NAME), |t: &mut Task| {
                type C = $t;
                type A = <$t as PC>::Aff;
                let w = World::<C>::new(&t.conf.dict.clone(), &mut t.rng, 14);
                let n = t.n(500);
                let hostile = |r: &mut Rng, d: &mut Vec<u8>| {
                    let i = r.below(d.len());
                    d[i] ^= 1 << r.below(8);
                };
                stream_task::<A>(t, n, |r| C::aff(&w.point(r)), hostile);
                stream_task::<C>(t, n, |r| { let p = w.point(r); w.proj(r, &p) }, hostile);
                bincode_task::<A>(t, n / 4, |r| C::aff(&w.sub_point(r).1));
                bincode_task::<C>(t, n / 4, |r| { let p = w.sub_point(r).1; w.proj(r, &p) });
            }));
        };
    }
    for_each_curve!(c);
    run(conf, jobs);
}
