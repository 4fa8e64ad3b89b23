//! C01, C02 (wire format), C04 (hostile binary input), C06 (faulty I/O)
use crate::alloc::peak_of;
use crate::engine::*;
use crate::model::*;
use crate::refhash::hex;
use crate::{v1_types, v2_types};
use sia::encoding::{SiaDecodable, SiaEncodable, V1SiaDecodable, V1SiaEncodable};
use std::fmt::Debug;
use std::io::{self, Read, Write};

/// One wire version of one model type, bridging reference and library.
pub trait Wire: Send + Sync + 'static {
    type T: M;
    const V: &'static str;
    fn bytes(m: &Self::T) -> Vec<u8>;
    fn ok(m: &Self::T) -> bool;
    fn parse(r: &mut Rd) -> P<Self::T>;
    fn enc<W: Write>(s: &<Self::T as M>::S, w: &mut W) -> Result<(), String>;
    fn dec<R: Read>(r: &mut R) -> Result<<Self::T as M>::S, String>;
    fn eq(a: &<Self::T as M>::S, b: &<Self::T as M>::S) -> bool;
}
pub struct W2<T>(std::marker::PhantomData<fn(T)>);
pub struct W1<T>(std::marker::PhantomData<fn(T)>);
impl<T: B2> Wire for W2<T>
where
    T::S: SiaEncodable + SiaDecodable + PartialEq + Debug,
{
    type T = T;
    const V: &'static str = "v2";
    fn bytes(m: &T) -> Vec<u8> {
        m.v2()
    }
    fn ok(m: &T) -> bool {
        m.ok2()
    }
    fn parse(r: &mut Rd) -> P<T> {
        T::d2(r)
    }
    fn enc<W: Write>(s: &T::S, w: &mut W) -> Result<(), String> {
        s.encode(w).map_err(|e| format!("{e}"))
    }
    fn dec<R: Read>(r: &mut R) -> Result<T::S, String> {
        T::S::decode(r).map_err(|e| format!("{e}"))
    }
    fn eq(a: &T::S, b: &T::S) -> bool {
        a == b
    }
}
impl<T: B1> Wire for W1<T>
where
    T::S: V1SiaEncodable + V1SiaDecodable + PartialEq + Debug,
{
    type T = T;
    const V: &'static str = "v1";
    fn bytes(m: &T) -> Vec<u8> {
        m.v1()
    }
    fn ok(_: &T) -> bool {
        true
    }
    fn parse(r: &mut Rd) -> P<T> {
        T::d1(r)
    }
    fn enc<W: Write>(s: &T::S, w: &mut W) -> Result<(), String> {
        s.encode_v1(w).map_err(|e| format!("{e}"))
    }
    fn dec<R: Read>(r: &mut R) -> Result<T::S, String> {
        T::S::decode_v1(r).map_err(|e| format!("{e}"))
    }
    fn eq(a: &T::S, b: &T::S) -> bool {
        a == b
    }
}
pub fn tname<T>() -> String {
    let n = std::any::type_name::<T>();
    // drop module paths
    let mut o = String::new();
    let mut w = String::new();
    for c in n.chars() {
        if c.is_alphanumeric() || c == '_' {
            w.push(c)
        } else if c == ':' {
            w.clear()
        } else {
            o.push_str(&w);
            w.clear();
            o.push(c)
        }
    }
    o + &w
}
fn short(b: &[u8]) -> String {
    if b.len() > 160 {
        format!("{}…({} bytes)", hex(&b[..160]), b.len())
    } else {
        hex(b)
    }
}
pub fn diff(a: &[u8], b: &[u8]) -> String {
    let k = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let lo = k.saturating_sub(8);
    let f = |v: &[u8]| short(&v[lo.min(v.len())..(k + 24).min(v.len())]);
    format!("got {} bytes, expected {}; first difference at byte {k}: got …{} expected …{}", a.len(), b.len(), f(a), f(b))
}

// ------------------------------------------------------------------ C01 / C02
fn conforms<W: Wire>(m: W::T, src: &mut Src, cx: &mut Cx) -> R {
    let v = m.to();
    let mut out = Vec::new();
    let r = quiet(|| W::enc(&v, &mut out)).map_err(|p| format!("encoding panicked: {p} for {m:?}"))?;
    if !W::ok(&m) {
        cx.label("not representable");
        cx.nt();
        return match r {
            Err(_) => Ok(()),
            Ok(()) => Err(format!("a value the wire format cannot represent was encoded as {}", short(&out))),
        };
    }
    r.map_err(|e| format!("encoding failed: {e} for {m:?}"))?;
    let want = W::bytes(&m);
    cx.nt_if(want.iter().any(|x| *x != 0));
    cx.sample(|| format!("{} <-> {}", trunc(format!("{m:?}"), 300), short(&want)));
    if out != want {
        return Err(format!("encoding differs from the wire format: {} for {}", diff(&out, &want), trunc(format!("{m:?}"), 1500)));
    }
    let tail = { let n = src.upto(24) as usize; src.fill(n) };
    let mut buf = out.clone();
    buf.extend_from_slice(&tail);
    let mut rd = &buf[..];
    let d = quiet(|| W::dec(&mut rd)).map_err(|p| format!("decoding its own encoding panicked: {p}"))?.map_err(|e| format!("its own encoding does not decode: {e}; {}", short(&out)))?;
    if rd.len() != tail.len() {
        return Err(format!("decoding consumed {} bytes of an encoding of {} ({} trailing)", buf.len() - rd.len(), out.len(), tail.len()));
    }
    let dm = W::T::of(&d);
    if dm != m || !W::eq(&d, &v) {
        return Err(format!("decoded value differs: {dm:?} from {m:?} (PartialEq says {})", W::eq(&d, &v)));
    }
    // no proper prefix decodes
    let n = out.len();
    let cuts: Vec<usize> = if n <= 96 { (0..n).collect() } else { (0..24).map(|i| if i < 4 { n - 1 - i } else { src.upto(n as u64 - 1) as usize }).collect() };
    for k in cuts {
        cx.extra_evals += 1;
        let mut rd = &out[..k];
        if quiet(|| W::dec(&mut rd)).map_err(|p| format!("decoding a truncated encoding panicked: {p}"))?.is_ok() {
            return Err(format!("the first {k} of {n} bytes decode as a complete value"));
        }
    }
    Ok(())
}
pub fn trunc(mut s: String, n: usize) -> String {
    if s.len() > n {
        let mut k = n;
        while !s.is_char_boundary(k) {
            k -= 1
        }
        s.truncate(k);
        s.push('…');
    }
    s
}
/// relative cost of a type: how many cases it gets
fn weight<T>() -> (u64, u64) {
    match tname::<T>().as_str() {
        "Tx2" | "Tx1" | "Blk" => (6000, 200_000),
        "Pol" | "SatPol" | "Res" | "St" | "ScIn2" | "SfIn2" | "TxSig" | "Cov" | "Fc1" | "Fcr1" | "Fc2" => (4000, 120_000),
        _ => (1500, 40_000),
    }
}
macro_rules! subs_conform {
    ($w:ident; $($t:ty),*) => { vec![$({
        let (q, t) = weight::<$t>();
        sub(tname::<$t>(), q, t, |s: &mut Src, c: &mut Cx| { let m = <$t as M>::gen(s); conforms::<$w<$t>>(m, s, c) })
    }),*] };
}
macro_rules! conform2 { ($($t:ty),*) => { subs_conform!(W2; $($t),*) }; }
macro_rules! conform1 { ($($t:ty),*) => { subs_conform!(W1; $($t),*) }; }

fn c01() -> Prop {
    let mut subs = v2_types!(conform2);
    subs.push(sub("Dur any", 4000, 100_000, |s, c| {
        let d = match s.upto(2) {
            0 => (s.u64() as i64) as i128,
            1 => s.u128() as i128 >> s.upto(40).min(64),
            _ => s.pick(&[-1i128, i64::MAX as i128 + 1, u64::MAX as i128, u64::MAX as i128 + 1, i64::MIN as i128, -(1i128 << 64) + 5, (1i128 << 64) + 5]).to_owned(),
        };
        let d = d.clamp(-(1i128 << 80), 1i128 << 80);
        conforms::<W2<Dur>>(Dur(d), s, c)
    }));
    subs.push(sub("Pol wide", 600, 20_000, |s, c| {
        let k = *s.pick(&[0usize, 1, 2, 127, 128, 250, 254, 255, 256, 257, 300, 511, 512, 513]);
        let mut p = Pol::wide(s, k);
        if s.one_in(3) {
            p = Pol::Thresh(1, vec![Pol::Above(1), p]);
        }
        c.label_if(k > 255, ">255 sub-policies");
        conforms::<W2<Pol>>(p, s, c)
    }));
    subs.push(sub("Pol deep", 300, 5000, |s, c| {
        let d = 1 + s.upto(900);
        let mut p = Pol::leaf(s);
        for _ in 0..d {
            p = Pol::Thresh(s.upto(2) as u8, vec![p]);
        }
        conforms::<W2<Pol>>(p, s, c)
    }));
    Prop {
        id: "C01",
        rule: "every v2-encodable type: random model value (boundary-biased) -> library value -> bytes compared with an independent reference encoder; decode with random trailing bytes; all (or 24 sampled) proper prefixes must fail; non-trivial = encoding contains a non-zero byte or the value is unrepresentable",
        assumptions: &["timestamps are whole seconds (the wire unit)", "the reference encoder in harness/src/model.rs states the Sia v2 wire format"],
        subs,
    }
}
fn c02() -> Prop {
    Prop {
        id: "C02",
        rule: "every v1-encodable type: random model value -> library value -> bytes compared with an independent reference encoder; decode with random trailing bytes; all (or 24 sampled) proper prefixes must fail; non-trivial = encoding contains a non-zero byte",
        assumptions: &["the reference encoder in harness/src/model.rs states the Sia v1 wire format"],
        subs: v1_types!(conform1),
    }
}

// ------------------------------------------------------------------ C04
pub fn interesting(s: &mut Src) -> u64 {
    match s.upto(5) {
        0 => s.upto(40),
        1 => u64::MAX - s.upto(40),
        2 => 1u64 << s.upto(63),
        3 => *s.pick(&[0x7fff_ffff, 0xffff_ffff, 0x1_0000_0000, i64::MAX as u64, i64::MIN as u64, 1 << 40, 1 << 33, 253402300800, 253402300799, (-377705116800i64) as u64, (-377705116801i64) as u64, 1 << 60, (1 << 60) + 1]),
        _ => s.u64(),
    }
}
pub fn mutate(b: &mut Vec<u8>, s: &mut Src) {
    let n = b.len();
    match s.weighted(&[4, 4, 4, 2, 2, 2, 2]) {
        0 if n > 0 => {
            let i = s.below(n);
            b[i] ^= 1 << s.upto(7)
        }
        1 if n > 0 => {
            let i = s.below(n);
            b[i] = *s.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 16, 17, 0x7f, 0x80, 0xfe, 0xff])
        }
        2 if n >= 8 => {
            let i = s.below(n - 7);
            let v = interesting(s);
            b[i..i + 8].copy_from_slice(&v.to_le_bytes())
        }
        3 if n > 0 => {
            let k = s.below(n);
            b.truncate(k)
        }
        4 if n > 0 => {
            let i = s.below(n);
            let k = 1 + s.upto(16.min(n - i - 1) as u64) as usize;
            b.drain(i..i + k);
        }
        5 if n > 0 => {
            let i = s.below(n);
            let k = 1 + s.upto(40.min(n - i - 1) as u64) as usize;
            let d: Vec<u8> = b[i..i + k].to_vec();
            let j = s.below(n);
            b.splice(j..j, d);
        }
        _ => {
            let k = 1 + s.upto(15) as usize;
            let d = s.fill(k);
            let j = s.upto(n as u64) as usize;
            b.splice(j..j, d);
        }
    }
}
fn hostile<W: Wire>(s: &mut Src, c: &mut Cx) -> Vec<u8> {
    match s.weighted(&[2, 10, 2, 1]) {
        0 => {
            c.label("random bytes");
            s.blob()
        }
        1 => {
            c.label("mutated encoding");
            let m = loop {
                let m = W::T::gen(s);
                if W::ok(&m) {
                    break m;
                }
            };
            let mut b = W::bytes(&m);
            let k = match s.weighted(&[5, 3, 1]) {
                0 => 1,
                1 => 2,
                _ => 3 + s.upto(4),
            };
            for _ in 0..k {
                mutate(&mut b, s)
            }
            b
        }
        2 => {
            // a plausible header followed by bytes from a small alphabet
            c.label("structured noise");
            let n = s.upto(120) as usize;
            (0..n).map(|_| *s.pick(&[0u8, 0, 0, 0, 1, 1, 2, 3, 5, 7, 0xff, 0x80])).collect()
        }
        _ => {
            c.label("foreign encoding");
            match s.upto(3) {
                0 => Tx2::gen(s).v2(),
                1 => Tx1::gen(s).v1(),
                2 => St::gen(s).v2(),
                _ => Pol::gen(s).v2(),
            }
        }
    }
}
const SLACK: usize = 4 << 20;
fn verdict<W: Wire>(b: &[u8], c: &mut Cx) -> R {
    let mut rr = Rd::new(b);
    let want = W::parse(&mut rr);
    let mut rd = b;
    let (got, peak) = peak_of(|| quiet(|| W::dec(&mut rd)));
    let got = got.map_err(|p| format!("decoding panicked: {p}; input {}", short(b)))?;
    if peak > SLACK + 256 * b.len() {
        return Err(format!("decoding {} bytes allocated {peak} bytes; input {}", b.len(), short(b)));
    }
    let used = b.len() - rd.len();
    match (want, got) {
        (Err(_), Err(_)) => {
            c.label("rejected");
            c.nt_if(rr.why != "eof" || rr.p > 8);
            Ok(())
        }
        (Err(_), Ok(v)) => {
            if rr.why == "policy too complex" {
                return Ok(());
            }
            Err(format!("malformed input accepted ({}) as {}; input {}", rr.why, trunc(format!("{:?}", W::T::of(&v)), 400), short(b)))
        }
        (Ok(_), Err(e)) => {
            if rr.may {
                c.label("non-canonical, refused");
                return Ok(());
            }
            Err(format!("well-formed input refused: {e}; input {}", short(b)))
        }
        (Ok(m), Ok(v)) => {
            c.label(if rr.may { "non-canonical, accepted" } else { "accepted" });
            c.nt();
            if used != rr.p {
                return Err(format!("decoding consumed {used} bytes, the encoding has {}; input {}", rr.p, short(b)));
            }
            let g = W::T::of(&v);
            if g != m {
                return Err(format!("decoded to the wrong value {g:?}, the bytes denote {m:?}"));
            }
            Ok(())
        }
    }
}
macro_rules! subs_hostile {
    ($w:ident; $($t:ty),*) => { vec![$({
        let (q, t) = weight::<$t>();
        sub(format!("{} {}", <$w<$t> as Wire>::V, tname::<$t>()), q * 2, t * 2, |s: &mut Src, c: &mut Cx| {
            let b = hostile::<$w<$t>>(s, c);
            c.sample(|| short(&b));
            verdict::<$w<$t>>(&b, c)
        })
    }),*] };
}
macro_rules! hostile2 { ($($t:ty),*) => { subs_hostile!(W2; $($t),*) }; }
macro_rules! hostile1 { ($($t:ty),*) => { subs_hostile!(W1; $($t),*) }; }
/// runs f on a thread with the default 2 MiB stack; an overflow kills the process and is attributed by the parent
pub fn small_stack<T: Send>(f: impl FnOnce() -> T + Send) -> Result<T, String> {
    std::thread::scope(|sc| std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(sc, || quiet(f)).unwrap().join().unwrap_or_else(|_| Err("panic".into())))
}
fn c04() -> Prop {
    let mut subs = v2_types!(hostile2);
    subs.extend(v1_types!(hostile1));
    subs.push(
        sub("deep policy nesting on a 2 MiB stack", 60, 1500, |s, c| {
            // thresholds nested in thresholds: far more levels than any genuine policy
            let depth = *s.pick(&[10usize, 100, 500, 1000, 1023, 1024, 1025, 2000, 5000, 20_000, 100_000, 1_000_000]);
            let mut b = vec![1u8];
            let width = 1 + s.upto(2) as u8;
            for _ in 0..depth {
                b.extend_from_slice(&[5, 1, width]);
            }
            if s.bool() {
                b.extend_from_slice(&Pol::leaf(s).v2()[1..]);
            }
            let outer = s.upto(2);
            c.nt_if(depth >= 1000);
            c.sample(|| format!("depth {depth} width {width}"));
            let full = match outer {
                0 => b.clone(),
                1 => [b.clone(), Vec::<Sig>::new().v2(), Vec::<H256>::new().v2()].concat(),
                _ => {
                    let mut x = vec![2u8];
                    p64(&mut x, 1);
                    p64(&mut x, 1);
                    ScEl::gen(s).e2(&mut x);
                    x.extend_from_slice(&b);
                    x
                }
            };
            let r = small_stack(|| {
                let mut r = &full[..];
                match outer {
                    0 => sia::types::v2::SpendPolicy::decode(&mut r).map(drop).is_ok(),
                    1 => sia::types::v2::SatisfiedPolicy::decode(&mut r).map(drop).is_ok(),
                    _ => sia::types::v2::Transaction::decode(&mut r).map(drop).is_ok(),
                }
            })
            .map_err(|p| format!("decoding panicked: {p}"))?;
            c.label_if(r, "accepted");
            if r && (width > 1 || outer == 2) {
                return Err("incomplete policy accepted".into());
            }
            Ok(())
        })
        .threads(4),
    );
    Prop {
        id: "C04",
        rule: "hostile byte strings (mutated encodings of random values with boundary integers planted at random offsets, structured noise, random bytes, encodings of other types) decoded as every v1- and v2-decodable type, verdict/value/consumption compared with an independent reference parser, allocation bounded by 4 MiB + 256 x input; non-trivial = accepted, or rejected for a reason other than ending within 8 bytes",
        assumptions: &["encodings the reference parser marks non-canonical (currency with leading zero, unknown transaction presence bits, fields marked present but empty, non-zero v1 claim start, more than 1024 sub-policies) may be refused or accepted, but if accepted must denote the reference value", "stack limit checked for the default 2 MiB thread stack"],
        subs,
    }
}

// ------------------------------------------------------------------ C06
struct Fw<'a> {
    out: Vec<u8>,
    s: &'a mut Src,
    fail_at: Option<usize>,
    kind: u64,
    chunk: u64,
    /// the error comes once and the stream goes on
    once: bool,
    failed: Option<usize>,
    intr: u32,
}
impl Write for Fw<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.intr < 3 && self.s.one_in(5) {
            self.intr += 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        self.intr = 0;
        let mut n = if self.chunk == 0 { b.len() } else { 1 + self.s.upto(self.chunk.min(b.len() as u64) - 1) as usize }.min(b.len());
        if let Some(k) = self.fail_at {
            let left = match self.failed {
                Some(_) if self.once => usize::MAX,
                _ => k.saturating_sub(self.out.len()),
            };
            if left == 0 {
                self.failed = Some(self.out.len());
                return match self.kind {
                    0 => Err(io::Error::other("disk on fire")),
                    1 => Ok(0),
                    2 => Err(io::ErrorKind::WouldBlock.into()),
                    _ => Err(io::ErrorKind::BrokenPipe.into()),
                };
            }
            n = n.min(left);
        }
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
struct Fr<'a> {
    b: &'a [u8],
    p: usize,
    s: &'a mut Src,
    fail_at: usize,
    kind: u64,
    chunk: u64,
    /// the error comes once and the stream goes on
    once: bool,
    failed: Option<usize>,
    intr: u32,
}
impl Read for Fr<'_> {
    fn read(&mut self, o: &mut [u8]) -> io::Result<usize> {
        if o.is_empty() {
            return Ok(0);
        }
        if self.intr < 3 && self.s.one_in(5) {
            self.intr += 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        self.intr = 0;
        if self.p == self.b.len() {
            return Ok(0);
        }
        let left = match self.failed {
            Some(_) if self.once => self.b.len() - self.p,
            _ => self.fail_at - self.p,
        };
        if left == 0 {
            self.failed = Some(self.p);
            return match self.kind {
                0 => Ok(0),
                1 => Err(io::Error::other("connection lost")),
                2 => Err(io::ErrorKind::WouldBlock.into()),
                _ => Err(io::ErrorKind::ConnectionReset.into()),
            };
        }
        let cap = o.len().min(left);
        let n = if self.chunk == 0 { cap } else { 1 + self.s.upto(self.chunk.min(cap as u64) - 1) as usize };
        o[..n].copy_from_slice(&self.b[self.p..self.p + n]);
        self.p += n;
        Ok(n)
    }
}
fn faulty<W: Wire>(s: &mut Src, c: &mut Cx) -> R {
    let m = W::T::gen(s);
    if !W::ok(&m) {
        return Ok(());
    }
    let want = W::bytes(&m);
    let v = m.to();
    let n = want.len();
    let fail = s.bool();
    let k = s.upto(n as u64 + 4) as usize;
    let kind = s.upto(3);
    let chunk = *s.pick(&[1u64, 2, 3, 7, 0, 16]);
    // a lasting end or zero-length write cannot be told from the end of the stream
    let once = s.one_in(3) && matches!((kind, fail), (0 | 1 | 3, true));
    c.nt_if(n > 1);
    c.sample(|| format!("{n} bytes, chunk {chunk}, hard error {kind} at byte {k} ({fail})"));
    if s.bool() {
        c.label(if fail && k < n { "write fails" } else { "write fragmented" });
        let mut w = Fw { out: vec![], s, fail_at: fail.then_some(k), kind, chunk, once: once && kind != 1, failed: None, intr: 0 };
        let r = quiet(|| W::enc(&v, &mut w)).map_err(|p| format!("encoding to a failing writer panicked: {p} (error at byte {k} of {n})"))?;
        let out = w.out;
        if fail && k < n {
            if r.is_ok() {
                return Err(format!("encoding reported success although the writer failed at byte {k} of {n}"));
            }
            let out = &out[..w.failed.unwrap_or(out.len())];
            if out != &want[..out.len().min(n)] {
                return Err(format!("bytes before the failure are not a prefix of the encoding: {}", diff(out, &want)));
            }
        } else {
            r.map_err(|e| format!("encoding to a fragmenting writer failed: {e}"))?;
            if out != want {
                return Err(format!("fragmenting writer received other bytes: {}", diff(&out, &want)));
            }
        }
    } else {
        let k = if fail { k.min(n + 4) } else { n + 4 };
        let mut buf = want.clone();
        buf.extend_from_slice(&[0xAA; 4]);
        c.label(if k < n { "read fails" } else { "read fragmented" });
        let mut r = Fr { b: &buf, p: 0, s, fail_at: k, kind, chunk, once: once && kind != 0, failed: None, intr: 0 };
        let d = quiet(|| W::dec(&mut r)).map_err(|p| format!("decoding from a failing reader panicked: {p} (error at byte {k} of {n})"))?;
        let p = r.p;
        if k < n {
            if d.is_ok() {
                return Err(format!("decoding reported success although the reader failed at byte {k} of {n}"));
            }
        } else {
            let d = d.map_err(|e| format!("decoding from a fragmenting reader failed: {e} (error only at byte {k} of {n})"))?;
            if W::T::of(&d) != m {
                return Err(format!("fragmented read gave {:?}, expected {m:?}", W::T::of(&d)));
            }
            if p != n {
                return Err(format!("decoder read {p} bytes of an encoding of {n}"));
            }
        }
    }
    Ok(())
}
macro_rules! subs_faulty {
    ($w:ident; $($t:ty),*) => { vec![$({
        let (q, t) = weight::<$t>();
        sub(format!("{} {}", <$w<$t> as Wire>::V, tname::<$t>()), q, t, |s: &mut Src, c: &mut Cx| faulty::<$w<$t>>(s, c))
    }),*] };
}
macro_rules! faulty2 { ($($t:ty),*) => { subs_faulty!(W2; $($t),*) }; }
macro_rules! faulty1 { ($($t:ty),*) => { subs_faulty!(W1; $($t),*) }; }
fn c06() -> Prop {
    let mut subs = v2_types!(faulty2);
    subs.extend(v1_types!(faulty1));
    Prop {
        id: "C06",
        rule: "random values of every codec type encoded to / decoded from a simulated stream with random fragment sizes, interruptions and an optional hard fault (a lasting or single error, zero-length write, EOF) at a random byte; non-trivial = encoding longer than one byte",
        assumptions: &["whatever a failed encoder writes after the failure is not looked at"],
        subs,
    }
}

pub fn props() -> Vec<Prop> {
    vec![c01(), c02(), c04(), c06()]
}
