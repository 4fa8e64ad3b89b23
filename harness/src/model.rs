//! Reference model of every wire/JSON type: plain, clonable model values with independent
//! generators, v1/v2 reference encoders, reference parsers and reference JSON, plus the
//! bridge to and from the library's own types.
use crate::engine::Src;
use crate::refhash::*;
use serde_json::{json, Value};
use sia::types as st;
use sia::types::v1 as s1;
use sia::types::v2 as s2;
use std::fmt::Debug;
use time::OffsetDateTime;

/// Reader of the reference parsers.
pub struct Rd<'a> {
    pub b: &'a [u8],
    pub p: usize,
    /// set when the input is tolerated-but-not-canonical: an implementation may refuse it
    pub may: bool,
    /// sub-policies seen (over 1024 may be refused)
    pub pol: u64,
    /// why it was rejected, for labels
    pub why: &'static str,
}
pub struct Reject;
pub type P<T> = Result<T, Reject>;
impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Rd { b, p: 0, may: false, pol: 0, why: "" }
    }
    pub fn take(&mut self, n: usize) -> P<&'a [u8]> {
        if n > self.b.len() - self.p {
            self.why = "eof";
            return Err(Reject);
        }
        let r = &self.b[self.p..self.p + n];
        self.p += n;
        Ok(r)
    }
    pub fn bad<T>(&mut self, why: &'static str) -> P<T> {
        self.why = why;
        Err(Reject)
    }
    pub fn arr<const N: usize>(&mut self) -> P<[u8; N]> {
        Ok(self.take(N)?.try_into().unwrap())
    }
    pub fn u8(&mut self) -> P<u8> {
        Ok(self.take(1)?[0])
    }
    pub fn u64(&mut self) -> P<u64> {
        Ok(u64::from_le_bytes(self.arr()?))
    }
    pub fn bool(&mut self) -> P<bool> {
        match self.u8()? {
            0 => Ok(false),
            1 => Ok(true),
            _ => self.bad("bool"),
        }
    }
    pub fn blob(&mut self) -> P<Vec<u8>> {
        let n = self.u64()?;
        if n > (self.b.len() - self.p) as u64 {
            return self.bad("eof");
        }
        Ok(self.take(n as usize)?.to_vec())
    }
}
pub fn p64(o: &mut Vec<u8>, v: u64) {
    o.extend_from_slice(&v.to_le_bytes())
}

pub trait M: Clone + Debug + PartialEq + Send + Sync + 'static {
    type S;
    fn gen(s: &mut Src) -> Self;
    fn to(&self) -> Self::S;
    fn of(s: &Self::S) -> Self;
}
/// has a v2 encoding
pub trait B2: M {
    fn e2(&self, o: &mut Vec<u8>);
    fn d2(r: &mut Rd) -> P<Self>;
    /// false when the wire format cannot represent the value (encoding must fail)
    fn ok2(&self) -> bool {
        true
    }
    fn v2(&self) -> Vec<u8> {
        let mut o = Vec::new();
        self.e2(&mut o);
        o
    }
}
/// has a v1 encoding
pub trait B1: M {
    fn e1(&self, o: &mut Vec<u8>);
    fn d1(r: &mut Rd) -> P<Self>;
    fn v1(&self) -> Vec<u8> {
        let mut o = Vec::new();
        self.e1(&mut o);
        o
    }
}
/// has a JSON form
pub trait J: M {
    fn js(&self) -> Value;
    /// false when JSON cannot represent the value (serialization must fail)
    fn okj(&self) -> bool {
        true
    }
    fn skip(&self) -> bool {
        false
    }
    /// value of an optional field that is left out
    fn absent() -> Option<Self> {
        None
    }
    /// reference JSON parser
    fn pj(v: &Value, t: &mut Tol) -> PJ<Self>;
}
/// verdict details of the reference JSON parser
#[derive(Default)]
pub struct Tol {
    /// the text is tolerated, not canonical: it may also be refused
    pub may: bool,
    pub why: &'static str,
}
pub enum JE {
    /// must be refused
    Reject,
    /// the reference has no opinion
    Skip,
}
pub type PJ<T> = Result<T, JE>;
impl Tol {
    pub fn bad<T>(&mut self, why: &'static str) -> PJ<T> {
        self.why = why;
        Err(JE::Reject)
    }
    pub fn str<'a>(&mut self, v: &'a Value) -> PJ<&'a str> {
        match v {
            Value::String(s) => Ok(s),
            _ => self.bad("not a string"),
        }
    }
    pub fn u64(&mut self, v: &Value) -> PJ<u64> {
        match v.as_u64() {
            Some(n) => Ok(n),
            None => self.bad("not an unsigned integer"),
        }
    }
    /// an object with known keys; arrays are left undecided (positional form)
    pub fn obj<'a>(&mut self, v: &'a Value, keys: &[&str]) -> PJ<&'a serde_json::Map<String, Value>> {
        match v {
            Value::Object(m) => {
                if m.keys().any(|k| !keys.contains(&k.as_str())) {
                    self.may = true; // unknown key
                }
                Ok(m)
            }
            Value::Array(_) => Err(JE::Skip),
            _ => self.bad("not an object"),
        }
    }
    pub fn hex<const N: usize>(&mut self, s: &str) -> PJ<[u8; N]> {
        match unhex(s) {
            Some(b) if b.len() == N => Ok(b.try_into().unwrap()),
            _ => self.bad("not hex of the right length"),
        }
    }
}
pub fn need<T: J>(m: &serde_json::Map<String, Value>, k: &str, t: &mut Tol) -> PJ<T> {
    match m.get(k) {
        Some(v) => T::pj(v, t),
        None => t.bad("missing key"),
    }
}
pub fn opt<T: J>(m: &serde_json::Map<String, Value>, k: &str, t: &mut Tol) -> PJ<T> {
    match m.get(k) {
        Some(v) => T::pj(v, t),
        None => match T::absent() {
            Some(x) => Ok(x),
            None => t.bad("missing key"),
        },
    }
}
// ---------------------------------------------------------------- scalars
macro_rules! scalar64 {
    ($($t:ty),*) => {$(
        impl M for $t {
            type S = $t;
            fn gen(s: &mut Src) -> Self { s.u64() as $t }
            fn to(&self) -> $t { *self }
            fn of(s: &$t) -> Self { *s }
        }
        impl B2 for $t {
            fn e2(&self, o: &mut Vec<u8>) { p64(o, *self as i128 as u64) }
            fn d2(r: &mut Rd) -> P<Self> {
                let v = r.u64()?;
                let n = v as $t;
                if n as i128 as u64 != v { return r.bad("integer range"); }
                Ok(n)
            }
        }
        impl B1 for $t {
            fn e1(&self, o: &mut Vec<u8>) { self.e2(o) }
            fn d1(r: &mut Rd) -> P<Self> { Self::d2(r) }
        }
        impl J for $t {
            fn js(&self) -> Value { json!(*self) }
            fn pj(v: &Value, t: &mut Tol) -> PJ<Self> {
                match v.as_i64().map(|x| x as i128).or(v.as_u64().map(|x| x as i128)).and_then(|x| <$t>::try_from(x).ok()) {
                    Some(n) => Ok(n),
                    None => t.bad("integer"),
                }
            }
        }
    )*};
}
scalar64!(u16, u32, u64, usize, i16, i32, i64);
impl M for u8 {
    type S = u8;
    fn gen(s: &mut Src) -> Self {
        match s.weighted(&[3, 1]) {
            0 => s.upto(255) as u8,
            _ => *s.pick(&[0, 1, 2, 127, 128, 254, 255]),
        }
    }
    fn to(&self) -> u8 {
        *self
    }
    fn of(s: &u8) -> Self {
        *s
    }
}
impl B2 for u8 {
    fn e2(&self, o: &mut Vec<u8>) {
        o.push(*self)
    }
    fn d2(r: &mut Rd) -> P<Self> {
        r.u8()
    }
}
impl B1 for u8 {
    fn e1(&self, o: &mut Vec<u8>) {
        o.push(*self)
    }
    fn d1(r: &mut Rd) -> P<Self> {
        r.u8()
    }
}
impl M for bool {
    type S = bool;
    fn gen(s: &mut Src) -> Self {
        s.bool()
    }
    fn to(&self) -> bool {
        *self
    }
    fn of(s: &bool) -> Self {
        *s
    }
}
impl B2 for bool {
    fn e2(&self, o: &mut Vec<u8>) {
        o.push(*self as u8)
    }
    fn d2(r: &mut Rd) -> P<Self> {
        r.bool()
    }
}
impl B1 for bool {
    fn e1(&self, o: &mut Vec<u8>) {
        o.push(*self as u8)
    }
    fn d1(r: &mut Rd) -> P<Self> {
        r.bool()
    }
}
impl J for bool {
    fn js(&self) -> Value {
        json!(*self)
    }
    fn pj(v: &Value, t: &mut Tol) -> PJ<Self> {
        match v {
            Value::Bool(b) => Ok(*b),
            _ => t.bad("not a bool"),
        }
    }
}
impl M for String {
    type S = String;
    fn gen(s: &mut Src) -> Self {
        s.text()
    }
    fn to(&self) -> String {
        self.clone()
    }
    fn of(s: &String) -> Self {
        s.clone()
    }
}
fn dstr(r: &mut Rd) -> P<String> {
    let b = r.blob()?;
    match String::from_utf8(b) {
        Ok(s) => Ok(s),
        Err(_) => r.bad("utf8"),
    }
}
impl B2 for String {
    fn e2(&self, o: &mut Vec<u8>) {
        p64(o, self.len() as u64);
        o.extend_from_slice(self.as_bytes())
    }
    fn d2(r: &mut Rd) -> P<Self> {
        dstr(r)
    }
}
impl B1 for String {
    fn e1(&self, o: &mut Vec<u8>) {
        self.e2(o)
    }
    fn d1(r: &mut Rd) -> P<Self> {
        dstr(r)
    }
}
impl J for String {
    fn js(&self) -> Value {
        json!(self)
    }
    fn pj(v: &Value, t: &mut Tol) -> PJ<Self> {
        Ok(t.str(v)?.to_string())
    }
}
impl<const N: usize> M for [u8; N] {
    type S = [u8; N];
    fn gen(s: &mut Src) -> Self {
        s.arr()
    }
    fn to(&self) -> Self {
        *self
    }
    fn of(s: &Self) -> Self {
        *s
    }
}
impl<const N: usize> B2 for [u8; N] {
    fn e2(&self, o: &mut Vec<u8>) {
        o.extend_from_slice(self)
    }
    fn d2(r: &mut Rd) -> P<Self> {
        r.arr()
    }
}
impl<const N: usize> B1 for [u8; N] {
    fn e1(&self, o: &mut Vec<u8>) {
        o.extend_from_slice(self)
    }
    fn d1(r: &mut Rd) -> P<Self> {
        r.arr()
    }
}
impl<T: M> M for Vec<T> {
    type S = Vec<T::S>;
    fn gen(s: &mut Src) -> Self {
        let n = s.len();
        (0..n).map(|_| T::gen(s)).collect()
    }
    fn to(&self) -> Self::S {
        self.iter().map(|x| x.to()).collect()
    }
    fn of(s: &Self::S) -> Self {
        s.iter().map(T::of).collect()
    }
}
impl<T: B2> B2 for Vec<T> {
    fn e2(&self, o: &mut Vec<u8>) {
        p64(o, self.len() as u64);
        for x in self {
            x.e2(o)
        }
    }
    fn d2(r: &mut Rd) -> P<Self> {
        let n = r.u64()?;
        let mut v = Vec::new();
        for _ in 0..n {
            v.push(T::d2(r)?)
        }
        Ok(v)
    }
    fn ok2(&self) -> bool {
        self.iter().all(|x| x.ok2())
    }
}
impl<T: B1> B1 for Vec<T> {
    fn e1(&self, o: &mut Vec<u8>) {
        p64(o, self.len() as u64);
        for x in self {
            x.e1(o)
        }
    }
    fn d1(r: &mut Rd) -> P<Self> {
        let n = r.u64()?;
        let mut v = Vec::new();
        for _ in 0..n {
            v.push(T::d1(r)?)
        }
        Ok(v)
    }
}
impl<T: J> J for Vec<T> {
    fn js(&self) -> Value {
        Value::Array(self.iter().map(|x| x.js()).collect())
    }
    fn okj(&self) -> bool {
        self.iter().all(|x| x.okj())
    }
    fn skip(&self) -> bool {
        self.is_empty()
    }
    fn absent() -> Option<Self> {
        Some(vec![])
    }
    fn pj(v: &Value, t: &mut Tol) -> PJ<Self> {
        match v {
            Value::Array(a) => a.iter().map(|x| T::pj(x, t)).collect(),
            _ => t.bad("not an array"),
        }
    }
}
impl<T: M> M for Option<T> {
    type S = Option<T::S>;
    fn gen(s: &mut Src) -> Self {
        s.bool().then(|| T::gen(s))
    }
    fn to(&self) -> Self::S {
        self.as_ref().map(|x| x.to())
    }
    fn of(s: &Self::S) -> Self {
        s.as_ref().map(T::of)
    }
}
impl<T: B2> B2 for Option<T> {
    fn e2(&self, o: &mut Vec<u8>) {
        o.push(self.is_some() as u8);
        if let Some(x) = self {
            x.e2(o)
        }
    }
    fn d2(r: &mut Rd) -> P<Self> {
        Ok(if r.bool()? { Some(T::d2(r)?) } else { None })
    }
    fn ok2(&self) -> bool {
        self.iter().all(|x| x.ok2())
    }
}
impl<T: B1> B1 for Option<T> {
    fn e1(&self, o: &mut Vec<u8>) {
        o.push(self.is_some() as u8);
        if let Some(x) = self {
            x.e1(o)
        }
    }
    fn d1(r: &mut Rd) -> P<Self> {
        Ok(if r.bool()? { Some(T::d1(r)?) } else { None })
    }
}
impl<T: J> J for Option<T> {
    fn js(&self) -> Value {
        match self {
            Some(x) => x.js(),
            None => Value::Null,
        }
    }
    fn okj(&self) -> bool {
        self.iter().all(|x| x.okj())
    }
    fn skip(&self) -> bool {
        self.is_none()
    }
    fn absent() -> Option<Self> {
        Some(None)
    }
    fn pj(v: &Value, t: &mut Tol) -> PJ<Self> {
        match v {
            Value::Null => Ok(None),
            _ => Ok(Some(T::pj(v, t)?)),
        }
    }
}

// ---------------------------------------------------------------- byte strings, time
/// Vec<u8> that is base64 in JSON
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Blob(pub Vec<u8>);
impl M for Blob {
    type S = Vec<u8>;
    fn gen(s: &mut Src) -> Self {
        Blob(s.blob())
    }
    fn to(&self) -> Vec<u8> {
        self.0.clone()
    }
    fn of(s: &Vec<u8>) -> Self {
        Blob(s.clone())
    }
}
impl B2 for Blob {
    fn e2(&self, o: &mut Vec<u8>) {
        p64(o, self.0.len() as u64);
        o.extend_from_slice(&self.0)
    }
    fn d2(r: &mut Rd) -> P<Self> {
        Ok(Blob(r.blob()?))
    }
}
impl B1 for Blob {
    fn e1(&self, o: &mut Vec<u8>) {
        self.e2(o)
    }
    fn d1(r: &mut Rd) -> P<Self> {
        Self::d2(r)
    }
}
impl J for Blob {
    fn js(&self) -> Value {
        json!(b64(&self.0))
    }
    fn skip(&self) -> bool {
        self.0.is_empty()
    }
    fn absent() -> Option<Self> {
        Some(Blob(vec![]))
    }
    fn pj(v: &Value, t: &mut Tol) -> PJ<Self> {
        let s = t.str(v)?;
        match unb64(s) {
            Some(b) => Ok(Blob(b)),
            None => t.bad("not canonical base64"),
        }
    }
}

pub const TS_MIN: i64 = -377705116800; // -9999-01-01T00:00:00Z
pub const TS_MAX: i64 = 253402300799; // 9999-12-31T23:59:59Z
const TS_Y0: i64 = -62167219200; // 0000-01-01T00:00:00Z
/// whole-second UTC timestamp
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Ts(pub i64);
impl M for Ts {
    type S = OffsetDateTime;
    fn gen(s: &mut Src) -> Self {
        Ts(match s.weighted(&[9, 9, 6, 3, 3, 1]) {
            5 => (s.u64() as i64).clamp(TS_MIN, TS_MAX),
            0 => s.upto(100) as i64,
            1 => 1_400_000_000 + s.upto(700_000_000) as i64,
            2 => s.range(TS_Y0, TS_MAX),
            3 => *s.pick(&[0, -1, 1, TS_Y0, TS_MAX, TS_MIN, TS_Y0 - 1, i32::MAX as i64 + 1, -59, 951782400, 4107542399, 4107542400]),
            _ => s.range(TS_MIN, TS_MAX),
        })
    }
    fn to(&self) -> OffsetDateTime {
        OffsetDateTime::from_unix_timestamp(self.0).expect("model timestamp")
    }
    fn of(s: &OffsetDateTime) -> Self {
        assert_eq!(s.unix_timestamp_nanos() % 1_000_000_000, 0);
        Ts(s.unix_timestamp())
    }
}
impl B2 for Ts {
    fn e2(&self, o: &mut Vec<u8>) {
        p64(o, self.0 as u64)
    }
    fn d2(r: &mut Rd) -> P<Self> {
        let v = r.u64()? as i64;
        if !(TS_MIN..=TS_MAX).contains(&v) {
            return r.bad("timestamp range");
        }
        Ok(Ts(v))
    }
}
pub fn civil(secs: i64) -> (i64, u32, u32, u32, u32, u32) {
    let days = secs.div_euclid(86400);
    let t = secs.rem_euclid(86400) as u32;
    let z = days + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = (doy - (153 * mp + 2) / 5 + 1) as u32;
    let m = if mp < 10 { mp + 3 } else { mp - 9 } as u32;
    let y = yoe + era * 400 + (m <= 2) as i64;
    (y, m, d, t / 3600, t / 60 % 60, t % 60)
}
pub fn rfc3339(secs: i64) -> String {
    let (y, mo, d, h, mi, s) = civil(secs);
    format!("{y:04}-{mo:02}-{d:02}T{h:02}:{mi:02}:{s:02}Z")
}
impl J for Ts {
    fn js(&self) -> Value {
        json!(rfc3339(self.0))
    }
    fn okj(&self) -> bool {
        self.0 >= TS_Y0
    }
    fn pj(v: &Value, t: &mut Tol) -> PJ<Self> {
        let s = t.str(v)?;
        match crate::props::text::rfc3339_secs(s) {
            Ok(x) => Ok(Ts(x)),
            Err(JE::Reject) => t.bad("not a date"),
            Err(e) => Err(e),
        }
    }
}
/// duration in nanoseconds (wire: u64 up to i64::MAX)
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Dur(pub i128);
impl M for Dur {
    type S = time::Duration;
    fn gen(s: &mut Src) -> Self {
        Dur(match s.weighted(&[4, 4, 1]) {
            0 => (s.u64() >> 1) as i128,
            1 => s.upto(10_000_000) as i128 * 1_000_000_000,
            _ => *s.pick(&[0, 1, i64::MAX as i128, i64::MAX as i128 - 1, 999_999_999, 1_000_000_000]),
        })
    }
    fn to(&self) -> time::Duration {
        time::Duration::new((self.0 / 1_000_000_000) as i64, (self.0 % 1_000_000_000) as i32)
    }
    fn of(s: &time::Duration) -> Self {
        Dur(s.whole_nanoseconds())
    }
}
impl B2 for Dur {
    fn e2(&self, o: &mut Vec<u8>) {
        p64(o, self.0 as u64)
    }
    fn d2(r: &mut Rd) -> P<Self> {
        let v = r.u64()?;
        if v > i64::MAX as u64 {
            return r.bad("duration range");
        }
        Ok(Dur(v as i128))
    }
    fn ok2(&self) -> bool {
        (0..=i64::MAX as i128).contains(&self.0)
    }
}
impl J for Dur {
    fn js(&self) -> Value {
        json!(self.0 as u64)
    }
    fn okj(&self) -> bool {
        self.ok2()
    }
    fn pj(v: &Value, t: &mut Tol) -> PJ<Self> {
        let n = t.u64(v)?;
        if n > i64::MAX as u64 {
            return t.bad("duration range");
        }
        Ok(Dur(n as i128))
    }
}

// ---------------------------------------------------------------- currency, work
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Cur(pub u128);
impl M for Cur {
    type S = st::Currency;
    fn gen(s: &mut Src) -> Self {
        Cur(s.u128())
    }
    fn to(&self) -> st::Currency {
        st::Currency::new(self.0)
    }
    fn of(s: &st::Currency) -> Self {
        Cur(**s)
    }
}
impl B2 for Cur {
    fn e2(&self, o: &mut Vec<u8>) {
        o.extend_from_slice(&self.0.to_le_bytes())
    }
    fn d2(r: &mut Rd) -> P<Self> {
        Ok(Cur(u128::from_le_bytes(r.arr()?)))
    }
}
impl B1 for Cur {
    fn e1(&self, o: &mut Vec<u8>) {
        let mut d = Vec::new();
        let mut v = self.0;
        while v > 0 {
            d.push((v & 255) as u8);
            v >>= 8;
        }
        p64(o, d.len() as u64);
        d.reverse();
        o.extend_from_slice(&d);
    }
    fn d1(r: &mut Rd) -> P<Self> {
        let n = r.u64()?;
        if n > 16 {
            return r.bad("currency length");
        }
        let b = r.take(n as usize)?;
        if n > 0 && b[0] == 0 {
            r.may = true; // leading zero: not canonical
        }
        Ok(Cur(b.iter().fold(0u128, |a, x| a << 8 | *x as u128)))
    }
}
impl J for Cur {
    fn js(&self) -> Value {
        json!(self.0.to_string())
    }
    fn pj(v: &Value, t: &mut Tol) -> PJ<Self> {
        match v {
            Value::String(s) => Ok(Cur(crate::props::text::currency(s, t)?)),
            Value::Number(n) => match n.as_u64() {
                Some(x) => Ok(Cur(x as u128)),
                None => t.bad("currency number"),
            },
            _ => t.bad("currency kind"),
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Wk(pub [u8; 32]);
impl M for Wk {
    type S = st::Work;
    fn gen(s: &mut Src) -> Self {
        Wk(match s.weighted(&[2, 3]) {
            0 => s.arr(),
            _ => {
                let mut a = [0u8; 32];
                let b: [u8; 32] = s.arr();
                let k = s.upto(32) as usize;
                a[k..].copy_from_slice(&b[k..]);
                a
            }
        })
    }
    fn to(&self) -> st::Work {
        let mut l = [0u64; 4];
        for (i, x) in l.iter_mut().enumerate() {
            *x = u64::from_be_bytes(self.0[24 - 8 * i..32 - 8 * i].try_into().unwrap());
        }
        st::Work(l)
    }
    fn of(s: &st::Work) -> Self {
        let mut a = [0u8; 32];
        for i in 0..4 {
            a[24 - 8 * i..32 - 8 * i].copy_from_slice(&s.0[i].to_be_bytes());
        }
        Wk(a)
    }
}
impl B2 for Wk {
    fn e2(&self, o: &mut Vec<u8>) {
        o.extend_from_slice(&self.0)
    }
    fn d2(r: &mut Rd) -> P<Self> {
        Ok(Wk(r.arr()?))
    }
}
impl B1 for Wk {
    fn e1(&self, o: &mut Vec<u8>) {
        self.e2(o)
    }
    fn d1(r: &mut Rd) -> P<Self> {
        Self::d2(r)
    }
}
impl J for Wk {
    fn js(&self) -> Value {
        json!(num_bigint::BigUint::from_bytes_be(&self.0).to_string())
    }
    fn pj(v: &Value, t: &mut Tol) -> PJ<Self> {
        let s = t.str(v)?;
        if !s.bytes().all(|c| c.is_ascii_digit()) {
            return t.bad("work digits");
        }
        if s.is_empty() || (s.len() > 1 && s.starts_with('0')) {
            t.may = true; // not canonical
        }
        let b = s.parse::<num_bigint::BigUint>().unwrap_or_default().to_bytes_be();
        if b.len() > 32 {
            return t.bad("work range");
        }
        let mut a = [0u8; 32];
        a[32 - b.len()..].copy_from_slice(&b);
        Ok(Wk(a))
    }
}

// ---------------------------------------------------------------- ids and other opaque arrays
macro_rules! idtype {
    ($($n:ident => $s:ty),*) => {$(
        #[derive(Clone, Copy, Debug, PartialEq)]
        pub struct $n(pub [u8; 32]);
        impl M for $n {
            type S = $s;
            fn gen(s: &mut Src) -> Self { $n(s.arr()) }
            fn to(&self) -> $s { <$s>::from(self.0) }
            fn of(s: &$s) -> Self { let r: &[u8; 32] = s.as_ref(); $n(*r) }
        }
        impl B2 for $n {
            fn e2(&self, o: &mut Vec<u8>) { o.extend_from_slice(&self.0) }
            fn d2(r: &mut Rd) -> P<Self> { Ok($n(r.arr()?)) }
        }
        impl B1 for $n {
            fn e1(&self, o: &mut Vec<u8>) { o.extend_from_slice(&self.0) }
            fn d1(r: &mut Rd) -> P<Self> { Ok($n(r.arr()?)) }
        }
        impl J for $n {
            fn js(&self) -> Value { json!(hex(&self.0)) }
            fn pj(v: &Value, t: &mut Tol) -> PJ<Self> {
                let s = t.str(v)?;
                let s = match s.split_once(':') {
                    Some((p, r)) => {
                        if !p.bytes().all(|c| c.is_ascii_alphanumeric()) || p.is_empty() { t.may = true; }
                        r
                    }
                    None => s,
                };
                Ok($n(t.hex::<32>(s)?))
            }
        }
    )*};
}
idtype!(H256 => st::Hash256, ScId => st::SiacoinOutputID, SfId => st::SiafundOutputID, AtId => st::AttestationID,
        BkId => st::BlockID, TxId => st::TransactionID, FcId => st::FileContractID);

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Addr(pub [u8; 32]);
impl M for Addr {
    type S = st::Address;
    fn gen(s: &mut Src) -> Self {
        Addr(s.arr())
    }
    fn to(&self) -> st::Address {
        st::Address::new(self.0)
    }
    fn of(s: &st::Address) -> Self {
        Addr(s.as_ref().try_into().expect("32-byte address"))
    }
}
impl B2 for Addr {
    fn e2(&self, o: &mut Vec<u8>) {
        o.extend_from_slice(&self.0)
    }
    fn d2(r: &mut Rd) -> P<Self> {
        Ok(Addr(r.arr()?))
    }
}
impl B1 for Addr {
    fn e1(&self, o: &mut Vec<u8>) {
        o.extend_from_slice(&self.0)
    }
    fn d1(r: &mut Rd) -> P<Self> {
        Ok(Addr(r.arr()?))
    }
}
impl J for Addr {
    fn js(&self) -> Value {
        json!(addr_text(&self.0))
    }
    fn pj(v: &Value, t: &mut Tol) -> PJ<Self> {
        let s = t.str(v)?;
        let b = t.hex::<38>(s)?;
        if blake2b(&b[..32])[..6] != b[32..] {
            return t.bad("address checksum");
        }
        Ok(Addr(b[..32].try_into().unwrap()))
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Pk(pub [u8; 32]);
impl M for Pk {
    type S = sia::signing::PublicKey;
    fn gen(s: &mut Src) -> Self {
        Pk(s.arr())
    }
    fn to(&self) -> Self::S {
        sia::signing::PublicKey::new(self.0)
    }
    fn of(s: &Self::S) -> Self {
        Pk(s.as_ref().try_into().expect("32-byte key"))
    }
}
impl B2 for Pk {
    fn e2(&self, o: &mut Vec<u8>) {
        o.extend_from_slice(&self.0)
    }
    fn d2(r: &mut Rd) -> P<Self> {
        Ok(Pk(r.arr()?))
    }
}
impl J for Pk {
    fn js(&self) -> Value {
        json!(format!("ed25519:{}", hex(&self.0)))
    }
    fn pj(v: &Value, t: &mut Tol) -> PJ<Self> {
        let s = t.str(v)?;
        match s.strip_prefix("ed25519:") {
            Some(h) => Ok(Pk(t.hex::<32>(h)?)),
            None => t.bad("key prefix"),
        }
    }
}
macro_rules! arr64 {
    ($n:ident, $s:ty, $of:expr) => {
        #[derive(Clone, Copy, Debug, PartialEq)]
        pub struct $n(pub [u8; 64]);
        impl M for $n {
            type S = $s;
            fn gen(s: &mut Src) -> Self {
                $n(s.arr())
            }
            fn to(&self) -> $s {
                <$s>::from(self.0)
            }
            fn of(s: &$s) -> Self {
                let f: fn(&$s) -> [u8; 64] = $of;
                $n(f(s))
            }
        }
        impl B2 for $n {
            fn e2(&self, o: &mut Vec<u8>) {
                o.extend_from_slice(&self.0)
            }
            fn d2(r: &mut Rd) -> P<Self> {
                Ok($n(r.arr()?))
            }
        }
        impl J for $n {
            fn js(&self) -> Value {
                json!(hex(&self.0))
            }
            fn pj(v: &Value, t: &mut Tol) -> PJ<Self> {
                let s = t.str(v)?;
                Ok($n(t.hex::<64>(s)?))
            }
        }
    };
}
arr64!(Sig, sia::signing::Signature, |s| s.data().try_into().expect("64-byte signature"));
arr64!(Lf, st::Leaf, |s| {
    // no byte accessor: observe the content through the encoding
    let mut v = Vec::new();
    sia::encoding::SiaEncodable::encode(s, &mut v).expect("leaf encodes");
    v.try_into().expect("64-byte leaf")
});
impl B1 for Lf {
    fn e1(&self, o: &mut Vec<u8>) {
        o.extend_from_slice(&self.0)
    }
    fn d1(r: &mut Rd) -> P<Self> {
        Ok(Lf(r.arr()?))
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Spec(pub [u8; 16]);
pub fn spec(s: &str) -> [u8; 16] {
    let mut a = [0u8; 16];
    a[..s.len()].copy_from_slice(s.as_bytes());
    a
}
impl Spec {
    /// the text it denotes, if it is text
    pub fn text(&self) -> Option<String> {
        let n = self.0.iter().rposition(|x| *x != 0).map_or(0, |p| p + 1);
        String::from_utf8(self.0[..n].to_vec()).ok()
    }
}
impl M for Spec {
    type S = st::Specifier;
    fn gen(s: &mut Src) -> Self {
        Spec(match s.weighted(&[8, 2, 4, 2, 1, 1]) {
            0 => spec("ed25519"),
            1 => spec("entropy"),
            2 => {
                let n = s.upto(16) as usize;
                let mut a = [0u8; 16];
                for x in a[..n].iter_mut() {
                    *x = b' ' + s.upto(94) as u8;
                }
                a
            }
            3 => {
                // text with colons, NULs, multi-byte characters
                let n = s.upto(16) as usize;
                let mut t = String::new();
                for _ in 0..n {
                    t.push(*s.pick(&[':', '\0', 'é', 'a', '0', '中', ' ', '"']));
                }
                while t.len() > 16 {
                    t.pop();
                }
                spec(&t)
            }
            4 => [0; 16],
            _ => s.arr(), // mostly not UTF-8
        })
    }
    fn to(&self) -> st::Specifier {
        st::Specifier::new(self.0)
    }
    fn of(s: &st::Specifier) -> Self {
        Spec(*s.as_bytes())
    }
}
impl B2 for Spec {
    fn e2(&self, o: &mut Vec<u8>) {
        o.extend_from_slice(&self.0)
    }
    fn d2(r: &mut Rd) -> P<Self> {
        Ok(Spec(r.arr()?))
    }
}
impl B1 for Spec {
    fn e1(&self, o: &mut Vec<u8>) {
        o.extend_from_slice(&self.0)
    }
    fn d1(r: &mut Rd) -> P<Self> {
        Ok(Spec(r.arr()?))
    }
}
impl J for Spec {
    fn js(&self) -> Value {
        json!(self.0)
    }
    fn pj(v: &Value, t: &mut Tol) -> PJ<Self> {
        match v {
            Value::Array(a) if a.len() == 16 => {
                let mut b = [0u8; 16];
                for (x, y) in b.iter_mut().zip(a) {
                    *x = match y.as_u64() {
                        Some(n) if n < 256 => n as u8,
                        _ => return t.bad("specifier byte"),
                    }
                }
                Ok(Spec(b))
            }
            _ => t.bad("specifier"),
        }
    }
}
/// v1 unlock key: JSON "algorithm:hex"
#[derive(Clone, Debug, PartialEq)]
pub struct UKey {
    pub algorithm: Spec,
    pub key: Blob,
}
impl M for UKey {
    type S = s1::UnlockKey;
    fn gen(s: &mut Src) -> Self {
        UKey {
            algorithm: Spec::gen(s),
            key: match s.weighted(&[3, 1]) {
                0 => Blob(s.arr::<32>().to_vec()),
                _ => Blob::gen(s),
            },
        }
    }
    fn to(&self) -> Self::S {
        s1::UnlockKey { algorithm: self.algorithm.to(), key: self.key.to() }
    }
    fn of(s: &Self::S) -> Self {
        UKey { algorithm: Spec::of(&s.algorithm), key: Blob::of(&s.key) }
    }
}
impl B2 for UKey {
    fn e2(&self, o: &mut Vec<u8>) {
        self.algorithm.e2(o);
        self.key.e2(o)
    }
    fn d2(r: &mut Rd) -> P<Self> {
        Ok(UKey { algorithm: Spec::d2(r)?, key: Blob::d2(r)? })
    }
}
impl B1 for UKey {
    fn e1(&self, o: &mut Vec<u8>) {
        self.e2(o)
    }
    fn d1(r: &mut Rd) -> P<Self> {
        Self::d2(r)
    }
}
impl J for UKey {
    fn js(&self) -> Value {
        json!(format!("{}:{}", self.algorithm.text().unwrap_or_default(), hex(&self.key.0)))
    }
    fn okj(&self) -> bool {
        self.algorithm.text().is_some()
    }
    fn pj(v: &Value, t: &mut Tol) -> PJ<Self> {
        let s = t.str(v)?;
        match crate::props::text::unlock_key(s) {
            Some((a, k)) => {
                if a.ends_with('\0') {
                    t.may = true; // padding spelled out
                }
                Ok(UKey { algorithm: Spec(spec(a)), key: Blob(k) })
            }
            None => t.bad("unlock key text"),
        }
    }
}

// ---------------------------------------------------------------- plain structs
macro_rules! put {
    ($m:ident, $k:literal, $v:expr, always) => {
        $m.insert($k.to_string(), $v.js());
    };
    ($m:ident, $k:literal, $v:expr, opt) => {
        if !$v.skip() {
            $m.insert($k.to_string(), $v.js());
        }
    };
}
macro_rules! get {
    ($m:ident, $k:literal, $t:ident, always) => {
        need($m, $k, $t)?
    };
    ($m:ident, $k:literal, $t:ident, opt) => {
        opt($m, $k, $t)?
    };
}
macro_rules! model {
    ($n:ident => $s:path, $body:tt $($kind:ident)*) => {
        model!(@def $n $s, $body);
        $(model!(@$kind $n $body);)*
    };
    (@def $n:ident $s:path, { $($f:ident : $t:ty = $k:literal $o:ident),* $(,)? }) => {
        #[derive(Clone, Debug, PartialEq)]
        pub struct $n { $(pub $f: $t),* }
        impl M for $n {
            type S = $s;
            fn gen(s: &mut Src) -> Self { $(let $f = <$t>::gen(s);)* $n { $($f),* } }
            fn to(&self) -> $s { type X = $s; X { $($f: self.$f.to()),* } }
            fn of(s: &$s) -> Self { $n { $($f: <$t>::of(&s.$f)),* } }
        }
    };
    (@b2 $n:ident { $($f:ident : $t:ty = $k:literal $o:ident),* $(,)? }) => {
        impl B2 for $n {
            fn e2(&self, o: &mut Vec<u8>) { $(self.$f.e2(o);)* }
            fn d2(r: &mut Rd) -> P<Self> { $(let $f = <$t>::d2(r)?;)* Ok($n { $($f),* }) }
            fn ok2(&self) -> bool { true $(&& self.$f.ok2())* }
        }
    };
    (@b1 $n:ident { $($f:ident : $t:ty = $k:literal $o:ident),* $(,)? }) => {
        impl B1 for $n {
            fn e1(&self, o: &mut Vec<u8>) { $(self.$f.e1(o);)* }
            fn d1(r: &mut Rd) -> P<Self> { $(let $f = <$t>::d1(r)?;)* Ok($n { $($f),* }) }
        }
    };
    (@js $n:ident { $($f:ident : $t:ty = $k:literal $o:ident),* $(,)? }) => {
        impl J for $n {
            fn js(&self) -> Value {
                let mut m = serde_json::Map::new();
                $(put!(m, $k, self.$f, $o);)*
                Value::Object(m)
            }
            fn okj(&self) -> bool { true $(&& self.$f.okj())* }
            fn pj(v: &Value, t: &mut Tol) -> PJ<Self> {
                let m = t.obj(v, &[$($k),*])?;
                $(let $f: $t = get!(m, $k, t, $o);)*
                Ok($n { $($f),* })
            }
        }
    };
}

model!(ScOut => st::SiacoinOutput, { value: Cur = "value" always, address: Addr = "address" always } b2 b1 js);
model!(SfOut => st::SiafundOutput, { value: u64 = "value" always, address: Addr = "address" always } b2 js);
impl B1 for SfOut {
    fn e1(&self, o: &mut Vec<u8>) {
        Cur(self.value as u128).e1(o);
        self.address.e1(o);
        Cur(0).e1(o);
    }
    fn d1(r: &mut Rd) -> P<Self> {
        let v = Cur::d1(r)?;
        if v.0 > u64::MAX as u128 {
            return r.bad("siafund value");
        }
        let address = Addr::d1(r)?;
        if Cur::d1(r)?.0 != 0 {
            r.may = true; // ignored claim start
        }
        Ok(SfOut { value: v.0 as u64, address })
    }
}
model!(StEl => st::StateElement, { leaf_index: u64 = "leafIndex" always, merkle_proof: Vec<H256> = "merkleProof" always } b2 js);
model!(CIdx => st::ChainIndex, { height: u64 = "height" always, id: BkId = "id" always } b2 js);
model!(UC => s1::UnlockConditions, { timelock: u64 = "timelock" always, public_keys: Vec<UKey> = "publicKeys" always, signatures_required: u64 = "signaturesRequired" always } b2 b1 js);

// v1
model!(ScIn1 => s1::SiacoinInput, { parent_id: ScId = "parentID" always, unlock_conditions: UC = "unlockConditions" always } b1 js);
model!(SfIn1 => s1::SiafundInput, { parent_id: SfId = "parentID" always, unlock_conditions: UC = "unlockConditions" always, claim_address: Addr = "claimAddress" always } b1 js);
model!(Fc1 => s1::FileContract, {
    file_size: u64 = "filesize" always, file_merkle_root: H256 = "fileMerkleRoot" always, window_start: u64 = "windowStart" always,
    window_end: u64 = "windowEnd" always, payout: Cur = "payout" always, valid_proof_outputs: Vec<ScOut> = "validProofOutputs" always,
    missed_proof_outputs: Vec<ScOut> = "missedProofOutputs" always, unlock_hash: Addr = "unlockHash" always, revision_number: u64 = "revisionNumber" always } b1 js);
model!(Fcr1 => s1::FileContractRevision, {
    parent_id: FcId = "parentID" always, unlock_conditions: UC = "unlockConditions" always, revision_number: u64 = "revisionNumber" always,
    file_size: u64 = "filesize" always, file_merkle_root: H256 = "fileMerkleRoot" always, window_start: u64 = "windowStart" always,
    window_end: u64 = "windowEnd" always, valid_proof_outputs: Vec<ScOut> = "validProofOutputs" always,
    missed_proof_outputs: Vec<ScOut> = "missedProofOutputs" always, unlock_hash: Addr = "unlockHash" always } b1 js);
model!(Sp1 => s1::StorageProof, { parent_id: FcId = "parentID" always, leaf: Lf = "leaf" always, proof: Vec<H256> = "proof" always } b1 js);
model!(Cov => s1::CoveredFields, {
    whole_transaction: bool = "wholeTransaction" always, siacoin_inputs: Vec<usize> = "siacoinInputs" opt, siacoin_outputs: Vec<usize> = "siacoinOutputs" opt,
    file_contracts: Vec<usize> = "fileContracts" opt, file_contract_revisions: Vec<usize> = "fileContractRevisions" opt, storage_proofs: Vec<usize> = "storageProofs" opt,
    siafund_inputs: Vec<usize> = "siafundInputs" opt, siafund_outputs: Vec<usize> = "siafundOutputs" opt, miner_fees: Vec<usize> = "minerFees" opt,
    arbitrary_data: Vec<usize> = "arbitraryData" opt, signatures: Vec<usize> = "signatures" opt } b1 js);
model!(TxSig => s1::TransactionSignature, {
    parent_id: H256 = "parentID" always, public_key_index: u64 = "publicKeyIndex" always, timelock: u64 = "timelock" always,
    covered_fields: Cov = "coveredFields" always, signature: Blob = "signature" always } b1 js);
model!(Tx1 => s1::Transaction, {
    siacoin_inputs: Vec<ScIn1> = "siacoinInputs" opt, siacoin_outputs: Vec<ScOut> = "siacoinOutputs" opt, file_contracts: Vec<Fc1> = "fileContracts" opt,
    file_contract_revisions: Vec<Fcr1> = "fileContractRevisions" opt, storage_proofs: Vec<Sp1> = "storageProofs" opt, siafund_inputs: Vec<SfIn1> = "siafundInputs" opt,
    siafund_outputs: Vec<SfOut> = "siafundOutputs" opt, miner_fees: Vec<Cur> = "minerFees" opt, arbitrary_data: Vec<Blob> = "arbitraryData" opt,
    signatures: Vec<TxSig> = "signatures" opt } b1 js);
model!(Blk => st::Block, { parent_id: BkId = "parentID" always, nonce: u64 = "nonce" always, timestamp: Ts = "timestamp" always,
    miner_payouts: Vec<ScOut> = "minerPayouts" always, transactions: Vec<Tx1> = "transactions" always } js);
impl B1 for Blk {
    fn e1(&self, o: &mut Vec<u8>) {
        self.parent_id.e1(o);
        p64(o, self.nonce);
        self.timestamp.e2(o);
        self.miner_payouts.e1(o);
        self.transactions.e1(o);
    }
    fn d1(r: &mut Rd) -> P<Self> {
        Ok(Blk { parent_id: BkId::d1(r)?, nonce: r.u64()?, timestamp: Ts::d2(r)?, miner_payouts: Vec::d1(r)?, transactions: Vec::d1(r)? })
    }
}

// v2
#[derive(Clone, Debug, PartialEq)]
pub enum Pol {
    Above(u64),
    After(Ts),
    Pk(Pk),
    Hash(H256),
    Thresh(u8, Vec<Pol>),
    Opaque(Addr),
    Uc(UC),
}
impl Pol {
    pub fn leaf(s: &mut Src) -> Pol {
        match s.weighted(&[3, 3, 3, 3, 3, 1]) {
            0 => Pol::Above(s.u64()),
            1 => Pol::After(Ts::gen(s)),
            2 => Pol::Pk(Pk::gen(s)),
            3 => Pol::Hash(H256::gen(s)),
            4 => Pol::Opaque(Addr::gen(s)),
            _ => Pol::Uc(UC::gen(s)),
        }
    }
    pub fn tree(s: &mut Src, depth: u32) -> Pol {
        if depth == 0 || s.budget <= 0 || s.weighted(&[3, 2]) == 0 {
            return Pol::leaf(s);
        }
        let n = u8::gen(s);
        let k = match s.weighted(&[1, 3, 4, 3]) {
            0 => 0,
            1 => 1,
            2 => 2,
            _ => 3 + s.upto(2) as usize,
        };
        s.budget -= k as i64;
        Pol::Thresh(n, (0..k).map(|_| Pol::tree(s, depth - 1)).collect())
    }
    pub fn wide(s: &mut Src, k: usize) -> Pol {
        let n = u8::gen(s);
        let mut v = Vec::with_capacity(k);
        for _ in 0..k {
            v.push(match s.upto(3) {
                0 => Pol::Above(s.upto(255)),
                1 => Pol::Hash(H256([s.upto(255) as u8; 32])),
                2 => Pol::Opaque(Addr([s.upto(255) as u8; 32])),
                _ => Pol::Thresh(s.upto(3) as u8, vec![]),
            })
        }
        Pol::Thresh(n, v)
    }
    fn enc(&self, o: &mut Vec<u8>) {
        match self {
            Pol::Above(h) => {
                o.push(1);
                p64(o, *h)
            }
            Pol::After(t) => {
                o.push(2);
                p64(o, t.0 as u64)
            }
            Pol::Pk(k) => {
                o.push(3);
                o.extend_from_slice(&k.0)
            }
            Pol::Hash(h) => {
                o.push(4);
                o.extend_from_slice(&h.0)
            }
            Pol::Thresh(n, v) => {
                o.push(5);
                o.push(*n);
                o.push(v.len() as u8);
                for p in v {
                    p.enc(o)
                }
            }
            Pol::Opaque(a) => {
                o.push(6);
                o.extend_from_slice(&a.0)
            }
            Pol::Uc(u) => {
                o.push(7);
                u.e2(o)
            }
        }
    }
    fn dec(r: &mut Rd) -> P<Pol> {
        Ok(match r.u8()? {
            1 => Pol::Above(r.u64()?),
            2 => Pol::After(Ts::d2(r)?),
            3 => Pol::Pk(Pk::d2(r)?),
            4 => Pol::Hash(H256::d2(r)?),
            5 => {
                let n = r.u8()?;
                let k = r.u8()?;
                r.pol += k as u64;
                if r.pol > 1024 {
                    r.may = true; // "too complex": may be refused
                    if r.pol > 20_000 {
                        // not decided further by the reference
                        return r.bad("policy too complex");
                    }
                }
                let mut v = Vec::new();
                for _ in 0..k {
                    v.push(Pol::dec(r)?)
                }
                Pol::Thresh(n, v)
            }
            6 => Pol::Opaque(Addr::d2(r)?),
            7 => Pol::Uc(UC::d2(r)?),
            _ => return r.bad("policy tag"),
        })
    }
    pub fn address(&self) -> [u8; 32] {
        match self {
            Pol::Opaque(a) => a.0,
            Pol::Uc(u) => uc_address(u),
            Pol::Thresh(n, v) => {
                let mut o = b"sia/address|".to_vec();
                o.push(1);
                o.extend_from_slice(&[5, *n, v.len() as u8]);
                for p in v {
                    o.push(6);
                    o.extend_from_slice(&p.address());
                }
                blake2b(&o)
            }
            _ => {
                let mut o = b"sia/address|".to_vec();
                o.push(1);
                self.enc(&mut o);
                blake2b(&o)
            }
        }
    }
    pub fn size(&self) -> usize {
        1 + if let Pol::Thresh(_, v) = self { v.iter().map(|p| p.size()).sum() } else { 0 }
    }
    pub fn depth(&self) -> usize {
        1 + if let Pol::Thresh(_, v) = self { v.iter().map(|p| p.depth()).max().unwrap_or(0) } else { 0 }
    }
    fn fits(&self) -> bool {
        match self {
            Pol::Thresh(_, v) => v.len() <= 255 && v.iter().all(|p| p.fits()),
            Pol::Uc(u) => u.ok2(),
            _ => true,
        }
    }
}
pub fn uc_address(u: &UC) -> [u8; 32] {
    let mut l = vec![cat(&[&[0], &u.timelock.to_le_bytes()])];
    for k in &u.public_keys {
        l.push(cat(&[&[0], &k.v2()]))
    }
    l.push(cat(&[&[0], &u.signatures_required.to_le_bytes()]));
    merkle(&l)
}
impl M for Pol {
    type S = s2::SpendPolicy;
    fn gen(s: &mut Src) -> Self {
        Pol::tree(s, 4)
    }
    fn to(&self) -> Self::S {
        match self {
            Pol::Above(h) => s2::SpendPolicy::Above(*h),
            Pol::After(t) => s2::SpendPolicy::After(t.to()),
            Pol::Pk(k) => s2::SpendPolicy::PublicKey(k.to()),
            Pol::Hash(h) => s2::SpendPolicy::Hash(h.to()),
            Pol::Thresh(n, v) => s2::SpendPolicy::Threshold(*n, v.iter().map(|p| p.to()).collect()),
            Pol::Opaque(a) => s2::SpendPolicy::Opaque(a.to()),
            Pol::Uc(u) => s2::SpendPolicy::UnlockConditions(u.to()),
        }
    }
    fn of(s: &Self::S) -> Self {
        match s {
            s2::SpendPolicy::Above(h) => Pol::Above(*h),
            s2::SpendPolicy::After(t) => Pol::After(Ts::of(t)),
            s2::SpendPolicy::PublicKey(k) => Pol::Pk(Pk::of(k)),
            s2::SpendPolicy::Hash(h) => Pol::Hash(H256::of(h)),
            s2::SpendPolicy::Threshold(n, v) => Pol::Thresh(*n, v.iter().map(Pol::of).collect()),
            s2::SpendPolicy::Opaque(a) => Pol::Opaque(Addr::of(a)),
            s2::SpendPolicy::UnlockConditions(u) => Pol::Uc(UC::of(u)),
        }
    }
}
impl B2 for Pol {
    fn e2(&self, o: &mut Vec<u8>) {
        o.push(1);
        self.enc(o)
    }
    fn d2(r: &mut Rd) -> P<Self> {
        if r.u8()? != 1 {
            return r.bad("policy version");
        }
        r.pol = 0;
        Pol::dec(r)
    }
    fn ok2(&self) -> bool {
        self.fits()
    }
}
impl J for Pol {
    fn js(&self) -> Value {
        let (t, p) = match self {
            Pol::Above(h) => ("above", json!(h)),
            Pol::After(t) => ("after", json!(t.0 as u64)),
            Pol::Pk(k) => ("pk", k.js()),
            Pol::Hash(h) => ("h", h.js()),
            Pol::Thresh(n, v) => ("thresh", json!({"n": n, "of": v.iter().map(|p| p.js()).collect::<Vec<_>>()})),
            Pol::Opaque(a) => ("opaque", a.js()),
            Pol::Uc(u) => ("uc", u.js()),
        };
        json!({"type": t, "policy": p})
    }
    fn okj(&self) -> bool {
        match self {
            Pol::Thresh(_, v) => v.iter().all(|p| p.okj()),
            Pol::Uc(u) => u.okj(),
            _ => true,
        }
    }
    fn pj(v: &Value, t: &mut Tol) -> PJ<Self> {
        let m = match v {
            Value::Object(m) => m,
            _ => return t.bad("policy kind"),
        };
        if m.len() != 2 {
            return t.bad("policy keys");
        }
        let (ty, p) = match (m.get("type"), m.get("policy")) {
            (Some(a), Some(b)) => (t.str(a)?, b),
            _ => return t.bad("policy keys"),
        };
        Ok(match ty {
            "above" => Pol::Above(t.u64(p)?),
            "after" => {
                let s = t.u64(p)? as i64;
                if !(TS_MIN..=TS_MAX).contains(&s) {
                    return t.bad("policy timestamp");
                }
                Pol::After(Ts(s))
            }
            "pk" => Pol::Pk(Pk::pj(p, t)?),
            "h" => Pol::Hash(H256::pj(p, t)?),
            "thresh" => {
                let m = t.obj(p, &["n", "of"])?;
                let n: u64 = need(m, "n", t)?;
                if n > 255 {
                    return t.bad("threshold");
                }
                let of: Vec<Pol> = need(m, "of", t)?;
                if of.len() > 255 {
                    t.may = true;
                }
                Pol::Thresh(n as u8, of)
            }
            "opaque" => Pol::Opaque(Addr::pj(p, t)?),
            "uc" => Pol::Uc(UC::pj(p, t)?),
            _ => return t.bad("policy type"),
        })
    }
}
model!(SatPol => s2::SatisfiedPolicy, { policy: Pol = "policy" always, signatures: Vec<Sig> = "signatures" opt, preimages: Vec<H256> = "preimages" opt } b2 js);
model!(Att => s2::Attestation, { public_key: Pk = "publicKey" always, key: String = "key" always, value: Blob = "value" always, signature: Sig = "signature" always } b2 js);
model!(Fc2 => s2::FileContract, {
    capacity: u64 = "capacity" always, filesize: u64 = "filesize" always, file_merkle_root: H256 = "fileMerkleRoot" always, proof_height: u64 = "proofHeight" always,
    expiration_height: u64 = "expirationHeight" always, renter_output: ScOut = "renterOutput" always, host_output: ScOut = "hostOutput" always,
    missed_host_value: Cur = "missedHostValue" always, total_collateral: Cur = "totalCollateral" always, renter_public_key: Pk = "renterPublicKey" always,
    host_public_key: Pk = "hostPublicKey" always, revision_number: u64 = "revisionNumber" always, renter_signature: Sig = "renterSignature" always,
    host_signature: Sig = "hostSignature" always } b2 js);
model!(ScEl => s2::SiacoinElement, { state_element: StEl = "stateElement" always, id: ScId = "id" always, siacoin_output: ScOut = "siacoinOutput" always, maturity_height: u64 = "maturityHeight" always } b2 js);
model!(SfEl => s2::SiafundElement, { state_element: StEl = "stateElement" always, id: SfId = "id" always, siafund_output: SfOut = "siafundOutput" always, claim_start: Cur = "claimStart" always } b2 js);
model!(FcEl => s2::FileContractElement, { state_element: StEl = "stateElement" always, id: FcId = "id" always, v2_file_contract: Fc2 = "v2FileContract" always } b2 js);
model!(CiEl => s2::ChainIndexElement, { state_element: StEl = "stateElement" always, id: BkId = "id" always, chain_index: CIdx = "chainIndex" always } b2 js);
model!(ScIn2 => s2::SiacoinInput, { parent: ScEl = "parent" always, satisfied_policy: SatPol = "satisfiedPolicy" always } b2 js);
model!(SfIn2 => s2::SiafundInput, { parent: SfEl = "parent" always, claim_address: Addr = "claimAddress" always, satisfied_policy: SatPol = "satisfiedPolicy" always } b2 js);
model!(Fcr2 => s2::FileContractRevision, { parent: FcEl = "parent" always, revision: Fc2 = "revision" always } b2 js);
model!(Ren => s2::FileContractRenewal, { final_revision: Fc2 = "finalRevision" always, new_contract: Fc2 = "newContract" always, renter_rollover: Cur = "renterRollover" always,
    host_rollover: Cur = "hostRollover" always, renter_signature: Sig = "renterSignature" always, host_signature: Sig = "hostSignature" always } b2 js);
model!(Sp2 => s2::StorageProof, { proof_index: CiEl = "proofIndex" always, leaf: Lf = "leaf" always, proof: Vec<H256> = "proof" always } b2 js);
#[derive(Clone, Debug, PartialEq)]
pub enum ResKind {
    Renewal(Ren),
    Proof(Sp2),
    Expiration,
}
impl M for ResKind {
    type S = s2::ContractResolution;
    fn gen(s: &mut Src) -> Self {
        match s.upto(2) {
            0 => ResKind::Expiration,
            1 => ResKind::Proof(Sp2::gen(s)),
            _ => ResKind::Renewal(Ren::gen(s)),
        }
    }
    fn to(&self) -> Self::S {
        match self {
            ResKind::Renewal(r) => s2::ContractResolution::Renewal(r.to()),
            ResKind::Proof(p) => s2::ContractResolution::StorageProof(p.to()),
            ResKind::Expiration => s2::ContractResolution::Expiration(),
        }
    }
    fn of(s: &Self::S) -> Self {
        match s {
            s2::ContractResolution::Renewal(r) => ResKind::Renewal(Ren::of(r)),
            s2::ContractResolution::StorageProof(p) => ResKind::Proof(Sp2::of(p)),
            s2::ContractResolution::Expiration() => ResKind::Expiration,
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Res {
    pub parent: FcEl,
    pub resolution: ResKind,
}
impl M for Res {
    type S = s2::FileContractResolution;
    fn gen(s: &mut Src) -> Self {
        let parent = FcEl::gen(s);
        Res { parent, resolution: ResKind::gen(s) }
    }
    fn to(&self) -> Self::S {
        s2::FileContractResolution { parent: self.parent.to(), resolution: self.resolution.to() }
    }
    fn of(s: &Self::S) -> Self {
        Res { parent: FcEl::of(&s.parent), resolution: ResKind::of(&s.resolution) }
    }
}
impl B2 for Res {
    fn e2(&self, o: &mut Vec<u8>) {
        self.parent.e2(o);
        match &self.resolution {
            ResKind::Renewal(r) => {
                o.push(0);
                r.e2(o)
            }
            ResKind::Proof(p) => {
                o.push(1);
                p.e2(o)
            }
            ResKind::Expiration => o.push(2),
        }
    }
    fn d2(r: &mut Rd) -> P<Self> {
        let parent = FcEl::d2(r)?;
        let resolution = match r.u8()? {
            0 => ResKind::Renewal(Ren::d2(r)?),
            1 => ResKind::Proof(Sp2::d2(r)?),
            2 => ResKind::Expiration,
            _ => return r.bad("resolution tag"),
        };
        Ok(Res { parent, resolution })
    }
}
impl J for Res {
    fn js(&self) -> Value {
        let (t, v) = match &self.resolution {
            ResKind::Renewal(r) => ("renewal", r.js()),
            ResKind::Proof(p) => ("storageProof", p.js()),
            ResKind::Expiration => ("expiration", json!({})),
        };
        json!({"parent": self.parent.js(), "type": t, "resolution": v})
    }
    fn okj(&self) -> bool {
        true
    }
    fn pj(v: &Value, t: &mut Tol) -> PJ<Self> {
        let m = t.obj(v, &["parent", "type", "resolution"])?;
        let parent = need(m, "parent", t)?;
        let ty: String = need(m, "type", t)?;
        let resolution = match ty.as_str() {
            "renewal" => ResKind::Renewal(need(m, "resolution", t)?),
            "storageProof" => ResKind::Proof(need(m, "resolution", t)?),
            "expiration" => {
                if m.get("resolution") != Some(&json!({})) {
                    t.may = true; // its content carries no information
                }
                ResKind::Expiration
            }
            _ => return t.bad("resolution type"),
        };
        Ok(Res { parent, resolution })
    }
}
model!(Tx2 => s2::Transaction, {
    siacoin_inputs: Vec<ScIn2> = "siacoinInputs" opt, siacoin_outputs: Vec<ScOut> = "siacoinOutputs" opt, siafund_inputs: Vec<SfIn2> = "siafundInputs" opt,
    siafund_outputs: Vec<SfOut> = "siafundOutputs" opt, file_contracts: Vec<Fc2> = "fileContracts" opt, file_contract_revisions: Vec<Fcr2> = "fileContractRevisions" opt,
    file_contract_resolutions: Vec<Res> = "fileContractResolutions" opt, attestations: Vec<Att> = "attestations" opt, arbitrary_data: Blob = "arbitraryData" opt,
    new_foundation_address: Option<Addr> = "newFoundationAddress" opt, miner_fee: Cur = "minerFee" always } js);
impl B2 for Tx2 {
    fn e2(&self, o: &mut Vec<u8>) {
        o.push(2);
        let mut f = 0u64;
        let mut body = Vec::new();
        let b = &mut body;
        let mut bit = 0;
        macro_rules! part {
            ($present:expr, $enc:expr) => {
                if $present {
                    f |= 1 << bit;
                    $enc;
                }
                bit += 1;
            };
        }
        part!(!self.siacoin_inputs.is_empty(), self.siacoin_inputs.e2(b));
        part!(!self.siacoin_outputs.is_empty(), self.siacoin_outputs.e2(b));
        part!(!self.siafund_inputs.is_empty(), self.siafund_inputs.e2(b));
        part!(!self.siafund_outputs.is_empty(), self.siafund_outputs.e2(b));
        part!(!self.file_contracts.is_empty(), self.file_contracts.e2(b));
        part!(!self.file_contract_revisions.is_empty(), self.file_contract_revisions.e2(b));
        part!(!self.file_contract_resolutions.is_empty(), self.file_contract_resolutions.e2(b));
        part!(!self.attestations.is_empty(), self.attestations.e2(b));
        part!(!self.arbitrary_data.0.is_empty(), self.arbitrary_data.e2(b));
        part!(self.new_foundation_address.is_some(), self.new_foundation_address.unwrap().e2(b));
        part!(self.miner_fee.0 != 0, self.miner_fee.e2(b));
        assert_eq!(bit, 11);
        p64(o, f);
        o.extend_from_slice(&body);
    }
    fn d2(r: &mut Rd) -> P<Self> {
        if r.u8()? != 2 {
            return r.bad("transaction version");
        }
        let f = r.u64()?;
        if f >> 11 != 0 {
            r.may = true; // unknown presence bits
        }
        let mut t = Tx2 {
            siacoin_inputs: vec![], siacoin_outputs: vec![], siafund_inputs: vec![], siafund_outputs: vec![], file_contracts: vec![], file_contract_revisions: vec![],
            file_contract_resolutions: vec![], attestations: vec![], arbitrary_data: Blob(vec![]), new_foundation_address: None, miner_fee: Cur(0),
        };
        let mut empty = false;
        macro_rules! part {
            ($bit:expr, $f:ident, $empty:expr) => {
                if f & (1 << $bit) != 0 {
                    t.$f = B2::d2(r)?;
                    empty |= ($empty)(&t);
                }
            };
        }
        part!(0, siacoin_inputs, |t: &Tx2| t.siacoin_inputs.is_empty());
        part!(1, siacoin_outputs, |t: &Tx2| t.siacoin_outputs.is_empty());
        part!(2, siafund_inputs, |t: &Tx2| t.siafund_inputs.is_empty());
        part!(3, siafund_outputs, |t: &Tx2| t.siafund_outputs.is_empty());
        part!(4, file_contracts, |t: &Tx2| t.file_contracts.is_empty());
        part!(5, file_contract_revisions, |t: &Tx2| t.file_contract_revisions.is_empty());
        part!(6, file_contract_resolutions, |t: &Tx2| t.file_contract_resolutions.is_empty());
        part!(7, attestations, |t: &Tx2| t.attestations.is_empty());
        part!(8, arbitrary_data, |t: &Tx2| t.arbitrary_data.0.is_empty());
        if f & 512 != 0 {
            t.new_foundation_address = Some(Addr::d2(r)?)
        }
        part!(10, miner_fee, |t: &Tx2| t.miner_fee.0 == 0);
        if empty {
            r.may = true; // field marked present but empty
        }
        Ok(t)
    }
    fn ok2(&self) -> bool {
        self.siacoin_inputs.ok2() && self.siafund_inputs.ok2()
    }
}

// ---------------------------------------------------------------- consensus
use sia::consensus as sc;
#[derive(Clone, Debug, PartialEq)]
pub struct Acc {
    pub num_leaves: u64,
    pub trees: Vec<H256>, // only the present ones, ascending height
}
impl M for Acc {
    type S = sc::ElementAccumulator;
    fn gen(s: &mut Src) -> Self {
        let n = match s.weighted(&[4, 2, 1]) {
            0 => s.u64(),
            1 => s.upto(300),
            _ => u64::MAX,
        };
        Acc { num_leaves: n, trees: (0..n.count_ones()).map(|_| H256::gen(s)).collect() }
    }
    fn to(&self) -> Self::S {
        let mut t = [st::Hash256::from([0u8; 32]); 64];
        let mut k = 0;
        for (i, x) in t.iter_mut().enumerate() {
            if self.num_leaves >> i & 1 == 1 {
                *x = self.trees[k].to();
                k += 1;
            }
        }
        sc::ElementAccumulator { num_leaves: self.num_leaves, trees: t }
    }
    fn of(s: &Self::S) -> Self {
        let mut trees = vec![];
        for i in 0..64 {
            let h = H256::of(&s.trees[i]);
            if s.num_leaves >> i & 1 == 1 {
                trees.push(h)
            } else {
                assert_eq!(h.0, [0; 32], "absent accumulator tree is not empty");
            }
        }
        Acc { num_leaves: s.num_leaves, trees }
    }
}
impl B2 for Acc {
    fn e2(&self, o: &mut Vec<u8>) {
        p64(o, self.num_leaves);
        for t in &self.trees {
            t.e2(o)
        }
    }
    fn d2(r: &mut Rd) -> P<Self> {
        let n = r.u64()?;
        let mut trees = vec![];
        for _ in 0..n.count_ones() {
            trees.push(H256::d2(r)?)
        }
        Ok(Acc { num_leaves: n, trees })
    }
}
impl J for Acc {
    fn js(&self) -> Value {
        json!({"numLeaves": self.num_leaves, "trees": self.trees.js()})
    }
    fn pj(v: &Value, t: &mut Tol) -> PJ<Self> {
        let m = t.obj(v, &["numLeaves", "trees"])?;
        let num_leaves: u64 = need(m, "numLeaves", t)?;
        let trees: Vec<H256> = need(m, "trees", t)?;
        if trees.len() != num_leaves.count_ones() as usize {
            return t.bad("tree count");
        }
        Ok(Acc { num_leaves, trees })
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct St {
    pub index: CIdx,
    pub prev_timestamps: [Ts; 11],
    pub depth: BkId,
    pub child_target: BkId,
    pub siafund_pool: Cur,
    pub oak_time: Dur,
    pub oak_target: BkId,
    pub primary: Addr,
    pub failsafe: Addr,
    pub total_work: Wk,
    pub difficulty: Wk,
    pub oak_work: Wk,
    pub elements: Acc,
    pub attestations: u64,
}
impl St {
    pub fn ts_count(height: u64) -> usize {
        // the pre-genesis state has height 2^64-1 and no timestamps
        height.wrapping_add(1).min(11) as usize
    }
}
impl M for St {
    type S = sc::State;
    fn gen(s: &mut Src) -> Self {
        let height = match s.weighted(&[4, 3, 1]) {
            0 => s.upto(13),
            1 => s.u64(),
            _ => u64::MAX,
        };
        let n = St::ts_count(height);
        let mut prev_timestamps = [Ts(0); 11];
        for t in prev_timestamps[..n].iter_mut() {
            *t = Ts::gen(s)
        }
        St {
            index: CIdx { height, id: BkId::gen(s) },
            prev_timestamps,
            depth: BkId::gen(s),
            child_target: BkId::gen(s),
            siafund_pool: Cur::gen(s),
            oak_time: Dur::gen(s),
            oak_target: BkId::gen(s),
            primary: Addr::gen(s),
            failsafe: Addr::gen(s),
            total_work: Wk::gen(s),
            difficulty: Wk::gen(s),
            oak_work: Wk::gen(s),
            elements: Acc::gen(s),
            attestations: s.u64(),
        }
    }
    fn to(&self) -> Self::S {
        sc::State {
            index: self.index.to(),
            prev_timestamps: self.prev_timestamps.map(|t| t.to()),
            depth: self.depth.to(),
            child_target: self.child_target.to(),
            siafund_pool: self.siafund_pool.to(),
            oak_time: self.oak_time.to(),
            oak_target: self.oak_target.to(),
            foundation_primary_address: self.primary.to(),
            foundation_failsafe_address: self.failsafe.to(),
            total_work: self.total_work.to(),
            difficulty: self.difficulty.to(),
            oak_work: self.oak_work.to(),
            elements: self.elements.to(),
            attestations: self.attestations,
        }
    }
    fn of(s: &Self::S) -> Self {
        St {
            index: CIdx::of(&s.index),
            prev_timestamps: s.prev_timestamps.map(|t| Ts::of(&t)),
            depth: BkId::of(&s.depth),
            child_target: BkId::of(&s.child_target),
            siafund_pool: Cur::of(&s.siafund_pool),
            oak_time: Dur::of(&s.oak_time),
            oak_target: BkId::of(&s.oak_target),
            primary: Addr::of(&s.foundation_primary_address),
            failsafe: Addr::of(&s.foundation_failsafe_address),
            total_work: Wk::of(&s.total_work),
            difficulty: Wk::of(&s.difficulty),
            oak_work: Wk::of(&s.oak_work),
            elements: Acc::of(&s.elements),
            attestations: s.attestations,
        }
    }
}
impl B2 for St {
    fn e2(&self, o: &mut Vec<u8>) {
        self.index.e2(o);
        for t in &self.prev_timestamps[..St::ts_count(self.index.height)] {
            t.e2(o)
        }
        self.depth.e2(o);
        self.child_target.e2(o);
        self.siafund_pool.e2(o);
        self.oak_time.e2(o);
        self.oak_target.e2(o);
        self.primary.e2(o);
        self.failsafe.e2(o);
        self.total_work.e2(o);
        self.difficulty.e2(o);
        self.oak_work.e2(o);
        self.elements.e2(o);
        p64(o, self.attestations);
    }
    fn d2(r: &mut Rd) -> P<Self> {
        let index = CIdx::d2(r)?;
        let mut prev_timestamps = [Ts(0); 11];
        for t in prev_timestamps[..St::ts_count(index.height)].iter_mut() {
            *t = Ts::d2(r)?
        }
        Ok(St {
            index,
            prev_timestamps,
            depth: B2::d2(r)?,
            child_target: B2::d2(r)?,
            siafund_pool: B2::d2(r)?,
            oak_time: B2::d2(r)?,
            oak_target: B2::d2(r)?,
            primary: B2::d2(r)?,
            failsafe: B2::d2(r)?,
            total_work: B2::d2(r)?,
            difficulty: B2::d2(r)?,
            oak_work: B2::d2(r)?,
            elements: B2::d2(r)?,
            attestations: r.u64()?,
        })
    }
    fn ok2(&self) -> bool {
        self.oak_time.ok2()
    }
}
impl J for St {
    fn js(&self) -> Value {
        json!({"index": self.index.js(), "prevTimestamps": self.prev_timestamps.iter().map(|t| t.js()).collect::<Vec<_>>(), "depth": self.depth.js(),
            "childTarget": self.child_target.js(), "siafundPool": self.siafund_pool.js(), "oakTime": self.oak_time.js(), "oakTarget": self.oak_target.js(),
            "foundationPrimaryAddress": self.primary.js(), "foundationFailsafeAddress": self.failsafe.js(), "totalWork": self.total_work.js(),
            "difficulty": self.difficulty.js(), "oakWork": self.oak_work.js(), "elements": self.elements.js(), "attestations": self.attestations})
    }
    fn okj(&self) -> bool {
        self.oak_time.okj() && self.prev_timestamps.iter().all(|t| t.okj())
    }
    fn pj(v: &Value, t: &mut Tol) -> PJ<Self> {
        let m = t.obj(
            v,
            &[
                "index", "prevTimestamps", "depth", "childTarget", "siafundPool", "oakTime", "oakTarget", "foundationPrimaryAddress", "foundationFailsafeAddress", "totalWork", "difficulty",
                "oakWork", "elements", "attestations",
            ],
        )?;
        let ts: Vec<Ts> = need(m, "prevTimestamps", t)?;
        if ts.len() > 11 {
            return t.bad("too many timestamps");
        }
        if ts.len() < 11 {
            t.may = true;
        }
        let mut prev_timestamps = [Ts(0); 11];
        prev_timestamps[..ts.len()].copy_from_slice(&ts);
        Ok(St {
            index: need(m, "index", t)?,
            prev_timestamps,
            depth: need(m, "depth", t)?,
            child_target: need(m, "childTarget", t)?,
            siafund_pool: need(m, "siafundPool", t)?,
            oak_time: need(m, "oakTime", t)?,
            oak_target: need(m, "oakTarget", t)?,
            primary: need(m, "foundationPrimaryAddress", t)?,
            failsafe: need(m, "foundationFailsafeAddress", t)?,
            total_work: need(m, "totalWork", t)?,
            difficulty: need(m, "difficulty", t)?,
            oak_work: need(m, "oakWork", t)?,
            elements: need(m, "elements", t)?,
            attestations: need(m, "attestations", t)?,
        })
    }
}
model!(HfDev => sc::HardforkDevAddr, { height: u64 = "height" always, old_address: Addr = "oldAddress" always, new_address: Addr = "newAddress" always } js);
model!(HfTax => sc::HardforkTax, { height: u64 = "height" always } js);
model!(HfSp => sc::HardforkStorageProof, { height: u64 = "height" always } js);
model!(HfOak => sc::HardforkOak, { height: u64 = "height" always, fix_height: u64 = "fixHeight" always, genesis_timestamp: Ts = "genesisTimestamp" always } js);
model!(HfAsic => sc::HardforkASIC, { height: u64 = "height" always, oak_time: Dur = "oakTime" always, oak_target: BkId = "oakTarget" always } js);
model!(HfFnd => sc::HardforkFoundation, { height: u64 = "height" always, primary_address: Addr = "primaryAddress" always, failsafe_address: Addr = "failsafeAddress" always } js);
model!(HfV2 => sc::HardforkV2, { allow_height: u64 = "allowHeight" always, require_height: u64 = "requireHeight" always } js);
model!(Net => sc::Network, {
    name: String = "name" always, initial_coinbase: Cur = "initialCoinbase" always, minimum_coinbase: Cur = "minimumCoinbase" always, initial_target: BkId = "initialTarget" always,
    block_interval: Dur = "blockInterval" always, maturity_delay: u64 = "maturityDelay" always, hardfork_dev_addr: HfDev = "hardforkDevAddr" always,
    hardfork_tax: HfTax = "hardforkTax" always, hardfork_storage_proof: HfSp = "hardforkStorageProof" always, hardfork_oak: HfOak = "hardforkOak" always,
    hardfork_asic: HfAsic = "hardforkASIC" always, hardfork_foundation: HfFnd = "hardforkFoundation" always, hardfork_v2: HfV2 = "hardforkV2" always } js);
model!(Cs => sc::ChainState, { network: Net = "network" always, state: St = "state" always } js);

/// JSON text of `v` with shuffled object keys, random whitespace and optional escapes
pub fn render(v: &Value, s: &mut Src, o: &mut String) {
    fn ws(s: &mut Src, o: &mut String) {
        if s.one_in(6) {
            o.push_str(*s.pick(&[" ", "\n", "\t", "  ", "\r\n"]))
        }
    }
    fn st(t: &str, s: &mut Src, o: &mut String) {
        if s.one_in(20) {
            // escaped spelling of the same string
            o.push('"');
            for u in t.encode_utf16() {
                o.push_str(&format!("\\u{u:04x}"));
            }
            o.push('"');
        } else {
            o.push_str(&serde_json::to_string(t).unwrap());
        }
    }
    ws(s, o);
    match v {
        Value::Array(a) => {
            o.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    o.push(',')
                }
                render(x, s, o)
            }
            o.push(']')
        }
        Value::Object(m) => {
            let mut ks: Vec<&String> = m.keys().collect();
            for i in (1..ks.len()).rev() {
                let j = s.upto(i as u64) as usize;
                ks.swap(i, j)
            }
            o.push('{');
            for (i, k) in ks.iter().enumerate() {
                if i > 0 {
                    o.push(',')
                }
                ws(s, o);
                st(k, s, o);
                ws(s, o);
                o.push(':');
                render(&m[*k], s, o)
            }
            ws(s, o);
            o.push('}')
        }
        Value::String(t) => st(t, s, o),
        x => o.push_str(&x.to_string()),
    }
    ws(s, o);
}

/// applies `$m!(Model, "name")` to every v2-encodable type
#[macro_export]
macro_rules! v2_types {
    ($m:ident) => {{
        use $crate::model::*;
        $m!(u8, u16, u32, u64, usize, i16, i32, i64, bool, String, [u8; 3], [u8; 32], Vec<u8>, Vec<u64>, Vec<String>, Vec<Vec<u8>>, Option<u64>, Option<Addr>, Vec<Option<bool>>, Ts, Dur,
            Cur, Wk, H256, ScId, SfId, AtId, BkId, TxId, FcId, Addr, Pk, Sig, Lf, Spec, UKey, UC, ScOut, SfOut, StEl, CIdx, Pol, SatPol, Att, Fc2, ScEl, SfEl, FcEl, CiEl,
            ScIn2, SfIn2, Fcr2, Ren, Sp2, Res, Tx2, Acc, St)
    }};
}
#[macro_export]
macro_rules! v1_types {
    ($m:ident) => {{
        use $crate::model::*;
        $m!(u8, u16, u32, u64, usize, i16, i32, i64, bool, String, [u8; 3], [u8; 32], Vec<u8>, Vec<u64>, Vec<String>, Vec<Vec<u8>>, Option<u64>, Option<Addr>, Vec<Option<bool>>,
            Cur, Wk, H256, ScId, SfId, AtId, BkId, TxId, FcId, Addr, Lf, Spec, UKey, UC, ScOut, SfOut, ScIn1, SfIn1, Fc1, Fcr1, Sp1, Cov, TxSig, Tx1, Blk)
    }};
}
#[macro_export]
macro_rules! js_types {
    ($m:ident) => {{
        use $crate::model::*;
        $m!(Cur, Wk, H256, ScId, SfId, AtId, BkId, TxId, FcId, Addr, Pk, Sig, Lf, Spec, UKey, UC, ScOut, SfOut, StEl, CIdx, ScIn1, SfIn1, Fc1, Fcr1, Sp1, Cov, TxSig, Tx1, Blk,
            Pol, SatPol, Att, Fc2, ScEl, SfEl, FcEl, CiEl, ScIn2, SfIn2, Fcr2, Ren, Sp2, Res, Tx2, Acc, St, HfDev, HfTax, HfSp, HfOak, HfAsic, HfFnd, HfV2, Net, Cs)
    }};
}
