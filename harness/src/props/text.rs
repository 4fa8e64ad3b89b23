//! Text forms: C07 (addresses, ids, keys, signatures) and C18 (currency), and the text oracles.
use crate::engine::*;
use crate::model::*;
use crate::refhash::*;
use num_bigint::BigUint;
use serde_json::Value;
use sia::types as st;

/// text of at most n bytes with multi-byte characters and inner zeros
fn spec_text(s: &mut Src, n: usize) -> String {
    let mut t = String::new();
    loop {
        let ch = *s.pick(&['a', ':', '\0', ' ', 'é', '€', '𝄞', '"', '\n']);
        if t.len() + ch.len_utf8() > n {
            return t;
        }
        t.push(ch);
    }
}
// ------------------------------------------------------------------ oracles
/// "number [unit]" to hastings, by the text of C18
pub fn currency(s: &str, t: &mut Tol) -> PJ<u128> {
    let b = s.as_bytes();
    let n = b.iter().position(|c| !c.is_ascii_digit() && *c != b'.').unwrap_or(b.len());
    let (num, rest) = s.split_at(n);
    let unit = rest.trim();
    if !(rest == unit || rest == format!(" {unit}") && !unit.is_empty()) {
        t.may = true; // other white space
    }
    let (i, f) = match num.split_once('.') {
        Some((i, f)) => (i, Some(f)),
        None => (num, None),
    };
    if f.is_some_and(|f| f.contains('.')) {
        return t.bad("two decimal points");
    }
    if i.is_empty() && f.unwrap_or("").is_empty() {
        return t.bad("no digits");
    }
    if i.is_empty() || f == Some("") {
        t.may = true; // ".5" or "5."
    }
    let exp = match unit {
        "" | "H" => {
            if f.is_some() {
                t.may = true; // a decimal point in hastings is pointless
            }
            0
        }
        "pS" => 12,
        "nS" => 15,
        "uS" => 18,
        "mS" => 21,
        "SC" => 24,
        "KS" => 27,
        "MS" => 30,
        "GS" => 33,
        "TS" => 36,
        _ => return t.bad("unit"),
    };
    let f = f.unwrap_or("").trim_end_matches('0');
    if f.len() > exp {
        return t.bad("finer than a hasting");
    }
    let digits = format!("{i}{f}{}", "0".repeat(exp - f.len()));
    let d = digits.trim_start_matches('0');
    let v: BigUint = if d.is_empty() { BigUint::default() } else { d.parse().unwrap() };
    match u128::try_from(v) {
        Ok(v) => Ok(v),
        Err(_) => t.bad("too large"),
    }
}
/// canonical RFC 3339 UTC seconds
pub fn rfc3339_secs(s: &str) -> PJ<i64> {
    let b = s.as_bytes();
    let date = b.len() >= 10 && b.is_ascii() && b[..10].iter().enumerate().all(|(i, c)| if i == 4 || i == 7 { *c == b'-' } else { c.is_ascii_digit() });
    if !date {
        return Err(JE::Reject);
    }
    let canon = b.len() == 20
        && b.iter().enumerate().skip(10).all(|(i, c)| match i {
            10 => *c == b'T',
            13 | 16 => *c == b':',
            19 => *c == b'Z',
            _ => c.is_ascii_digit(),
        });
    if !canon {
        return if b.len() >= 20 { Err(JE::Skip) } else { Err(JE::Reject) };
    }
    let n = |r: std::ops::Range<usize>| s[r].parse::<i64>().unwrap();
    let (y, mo, d, h, mi, se) = (n(0..4), n(5..7), n(8..10), n(11..13), n(14..16), n(17..19));
    let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    let dim = match mo {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        2 => 28 + leap as i64,
        _ => 0,
    };
    if d < 1 || d > dim || h > 23 || mi > 59 || se > 60 {
        return Err(JE::Reject);
    }
    if se == 60 {
        return Err(JE::Skip); // leap second
    }
    let mut days = 0i64;
    // days from 1970-01-01 by counting, independent of the renderer
    let ly = |y: i64| y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    let before = |y: i64| y * 365 + (y + 3).div_euclid(4) - (y + 99).div_euclid(100) + (y + 399).div_euclid(400);
    days += before(y) - before(1970);
    for m in 1..mo {
        days += match m {
            1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
            2 => 28 + ly(y) as i64,
            _ => 30,
        }
    }
    days += d - 1;
    Ok(days * 86400 + h * 3600 + mi * 60 + se)
}
/// "algorithm:hex": the key is what follows the last colon
pub fn unlock_key(s: &str) -> Option<(&str, Vec<u8>)> {
    let (a, k) = s.rsplit_once(':')?;
    if a.len() > 16 {
        return None;
    }
    Some((a, unhex(k)?))
}

// ------------------------------------------------------------------ C07
pub trait Txt: J {
    fn parse(s: &str) -> Option<Result<Self::S, String>>;
    fn show(s: &Self::S) -> String;
}
macro_rules! txt {
    ($($n:ident),*) => {$(
        impl Txt for $n {
            fn parse(s: &str) -> Option<Result<Self::S, String>> { Some(<$n as M>::S::parse_string(s).map_err(|e| format!("{e:?}"))) }
            fn show(s: &Self::S) -> String { s.to_string() }
        }
    )*};
}
txt!(H256, ScId, SfId, AtId, BkId, TxId, FcId, Addr, Sig, Lf, UKey);
impl Txt for Pk {
    fn parse(_: &str) -> Option<Result<Self::S, String>> {
        None
    }
    fn show(s: &Self::S) -> String {
        s.to_string()
    }
}
fn edit_text(t: &mut String, s: &mut Src) {
    let cs: Vec<char> = t.chars().collect();
    let n = cs.len();
    let mut v = cs.clone();
    match s.weighted(&[6, 3, 2, 2, 2, 1, 2, 1]) {
        0 if n > 0 => {
            // another digit
            let i = s.below(n);
            v[i] = *s.pick(&['0', '1', '2', '3', '4', '5', '6', '7', '8', '9', 'a', 'b', 'c', 'd', 'e', 'f'])
        }
        1 if n > 0 => {
            let i = s.below(n);
            v[i] = if v[i].is_lowercase() { v[i].to_ascii_uppercase() } else { v[i].to_ascii_lowercase() }
        }
        2 if n > 0 => {
            let i = s.below(n);
            v[i] = *s.pick(&['g', 'G', ' ', ':', 'z', '-', '+', 'é', '\0', '/', '@', '`', 'x', '.', '_'])
        }
        3 if n > 0 => {
            let i = s.below(n);
            v.remove(i);
        }
        4 => {
            let i = s.upto(n as u64) as usize;
            let c = *s.pick(&['0', 'a', 'F', ':', ' ', 'g', '中', '+', '.']);
            v.insert(i, c)
        }
        5 if n > 1 => {
            let i = s.below(n - 1);
            v.swap(i, i + 1)
        }
        6 => {
            let p = *s.pick(&["h:", "scoid:", "txid:", "ed25519:", "addr:", ":", "a:b:", " ", "0x", "h: ", "prefix:h:"]);
            v = match s.one_in(8) {
                true => s.known_text().chars().chain(cs).collect(),
                false => p.chars().chain(cs).collect(),
            }
        }
        _ => {
            let k = s.upto(n as u64) as usize;
            v.truncate(k)
        }
    }
    *t = v.into_iter().collect();
}
fn text_case<T: Txt>(s: &mut Src, c: &mut Cx) -> R
where
    T::S: PartialEq + std::fmt::Debug + serde::Serialize + serde::de::DeserializeOwned,
{
    let m = T::gen(s);
    let v = m.to();
    let text = match m.js() {
        Value::String(t) => t,
        _ => unreachable!(),
    };
    let shown = quiet(|| T::show(&v)).map_err(|p| format!("rendering panicked: {p} for {m:?}"))?;
    if !m.okj() {
        c.label("not text");
        return Ok(());
    }
    if shown != text {
        return Err(format!("rendered as {shown:?}, expected {text:?}"));
    }
    let mut t = text.clone();
    let up = s.one_in(3);
    if up {
        // hex digits may be in any case; the prefix is kept
        let k = t.rfind(':').map_or(0, |i| i + 1);
        t = t[..k].to_string() + &t[k..].to_uppercase();
        c.label("upper case");
    }
    let edits = s.weighted(&[2, 6, 2, 1]);
    for _ in 0..edits {
        edit_text(&mut t, s);
    }
    let Some((want, tol)) = denotes::<T>(&t) else { return Ok(()) };
    c.nt_if(edits > 0 || up);
    c.label(match (&want, edits) {
        (Some(_), 0) => "valid",
        (Some(x), _) if *x == m => "edited, same value",
        (Some(_), _) => "edited, other value",
        (None, _) => "invalid",
    });
    c.sample(|| format!("{} {t:?} -> {}", super::codec::tname::<T>(), if want.is_some() { "value" } else { "refused" }));
    parses::<T>(&t, &want, &tol)
}
/// what a text denotes, if that is settled
fn denotes<T: Txt>(t: &str) -> Option<(Option<T>, Tol)> {
    let mut tol = Tol::default();
    match T::pj(&Value::String(t.into()), &mut tol) {
        Ok(x) => Some((Some(x), tol)),
        Err(JE::Reject) => Some((None, tol)),
        Err(JE::Skip) => None,
    }
}
fn parses<T: Txt>(t: &str, want: &Option<T>, tol: &Tol) -> R
where
    T::S: PartialEq + std::fmt::Debug + serde::Serialize + serde::de::DeserializeOwned,
{
    let mut ways: Vec<(&str, Result<T::S, String>)> = vec![];
    if let Some(r) = quiet(|| T::parse(t)).map_err(|p| format!("parse_string panicked: {p} on {t:?}"))? {
        ways.push(("parse_string", r));
    }
    let j = quiet(|| serde_json::from_value::<T::S>(Value::String(t.into()))).map_err(|p| format!("deserialization panicked: {p} on {t:?}"))?;
    ways.push(("serde", j.map_err(|e| e.to_string())));
    for (w, r) in ways {
        match (want, r) {
            (None, Ok(v)) => return Err(format!("{w} accepted {t:?} as {:?} ({})", T::of(&v), tol.why)),
            (Some(x), Err(e)) if !tol.may => return Err(format!("{w} refused {t:?} ({e}), it denotes {x:?}")),
            (Some(x), Ok(v)) => {
                if T::of(&v) != *x {
                    return Err(format!("{w} parsed {t:?} as {:?}, it denotes {x:?}", T::of(&v)));
                }
            }
            _ => {}
        }
    }
    Ok(())
}
fn c07() -> Prop {
    macro_rules! all { ($($t:ident),*) => { vec![$(sub(stringify!($t), if stringify!($t) == "Addr" || stringify!($t) == "UKey" { 120_000 } else { 50_000 }, 1_500_000, text_case::<$t>)),*] } }
    let mut subs = all!(H256, ScId, SfId, AtId, BkId, TxId, FcId, Addr, Pk, Sig, Lf, UKey);
    subs.push(sub("every single-digit change of an address", 300, 6000, |s, c| {
        let a = Addr::gen(s);
        let t = addr_text(&a.0);
        c.nt();
        c.sample(|| t.clone());
        for i in 0..76 {
            for d in "0123456789abcdef".chars() {
                let mut x: Vec<char> = t.chars().collect();
                if x[i] == d {
                    continue;
                }
                x[i] = d;
                let x: String = x.into_iter().collect();
                c.extra_evals += 1;
                if let Ok(v) = st::Address::parse_string(&x) {
                    return Err(format!("{x} (digit {i} of {t} changed) accepted as {v}"));
                }
            }
        }
        Ok(())
    }));
    subs.push(sub("random text", 40_000, 1_000_000, |s, c| {
        let t = s.text();
        c.nt_if(t.len() > 2);
        c.sample(|| format!("{t:?}"));
        macro_rules! all { ($($t:ident),*) => {$(
            if let Some((want, tol)) = denotes::<$t>(&t) {
                c.label_if(want.is_some(), "well-formed");
                parses(&t, &want, &tol)?;
            }
        )*} }
        all!(H256, TxId, BkId, Addr, Sig, Lf, UKey, Pk);
        Ok(())
    }));
    subs.push(sub("specifiers", 20_000, 300_000, |s, c| {
        // text of at most 16 bytes that does not end in a zero byte
        let n = s.upto(16) as usize;
        let mut t = match s.upto(3) {
            0 => spec_text(s, n),
            _ => (0..n).map(|_| (0x20 + s.upto(0x5e) as u8) as char).collect::<String>(),
        };
        while t.ends_with('\0') {
            t.pop();
        }
        c.nt_if(!t.is_empty());
        c.label_if(t.len() == 16, "full length");
        c.sample(|| format!("{t:?}"));
        let x = st::Specifier::from(t.as_str());
        if x.as_bytes() != &spec(&t) {
            return Err(format!("specifier {t:?} is {:?}", x.as_bytes()));
        }
        let d = quiet(|| x.to_string()).map_err(|p| format!("display of {t:?} panicked: {p}"))?;
        if d != t || st::Specifier::new(spec(&t)) != x {
            return Err(format!("specifier {t:?} displays as {d:?}"));
        }
        Ok(())
    }));
    subs.push(sub("raw bytes", 20_000, 300_000, |s, c| {
        // the conversions from and to bytes keep every byte
        let b: [u8; 32] = s.arr();
        let l: [u8; 64] = s.arr();
        c.nt_if(b != [0; 32]);
        c.sample(|| hex(&b));
        macro_rules! ids { ($($t:ident),*) => {$({
            let x = st::$t::new(b);
            let back: [u8; 32] = x.into();
            let (r32, r): (&[u8; 32], &[u8]) = (x.as_ref(), x.as_ref());
            if st::$t::from(b) != x || back != b || r32 != &b || r != &b[..] || st::$t::default() != st::$t::new([0; 32]) || (x == st::$t::default()) != (b == [0; 32]) {
                return Err(format!("{} of {} does not keep its bytes: {x}", stringify!($t), hex(&b)));
            }
        })*} }
        ids!(Hash256, SiacoinOutputID, SiafundOutputID, AttestationID, BlockID, TransactionID, FileContractID);
        let a = st::Address::new(b);
        if st::Address::from(b) != a || st::Address::from(&b[..]) != a || a.as_ref() != &b[..] || st::Address::default() != st::Address::new([0; 32]) {
            return Err(format!("address of {} does not keep its bytes: {a}", hex(&b)));
        }
        let k = sia::signing::PublicKey::new(b);
        let u = st::v1::UnlockKey::from(k);
        if k.as_ref() != &b[..] || u.key != b || u.algorithm.as_bytes() != &spec("ed25519") {
            return Err(format!("public key of {} does not keep its bytes: {k} {u}", hex(&b)));
        }
        let g = sia::signing::Signature::new(l);
        if sia::signing::Signature::from(l) != g || g.as_ref() != &l || g.data() != &l[..] || sia::signing::Signature::default() != sia::signing::Signature::new([0; 64]) || g.to_string() != hex(&l) {
            return Err(format!("signature of {} does not keep its bytes: {g}", hex(&l)));
        }
        let f = st::Leaf::from(l);
        if f.to_string() != hex(&l) {
            return Err(format!("leaf of {} does not keep its bytes: {f}", hex(&l)));
        }
        Ok(())
    }));
    subs.push(sub("chain index", 10_000, 100_000, |s, c| {
        let m = CIdx::gen(s);
        c.nt();
        let want = format!("{}:{}", m.height, hex(&m.id.0));
        let got = m.to().to_string();
        if got != want {
            return Err(format!("{got} expected {want}"));
        }
        Ok(())
    }));
    Prop {
        id: "C07",
        rule: "random value -> its text must equal the reference rendering; then 0-3 random edits (digit, case, non-hex, insert, delete, swap, prefix, truncate) and parse_string and serde must agree with the reference parser; all 1140 single-digit changes of addresses; non-trivial = the text was edited or upper-cased",
        assumptions: &["prefixes other than letters and digits before an id's colon may be accepted or refused"],
        subs,
    }
}

// ------------------------------------------------------------------ C18
const UNITS: [&str; 11] = ["pS", "nS", "uS", "mS", "SC", "KS", "MS", "GS", "TS", "H", ""];
fn digits(s: &mut Src, n: usize) -> String {
    match s.weighted(&[5, 2, 1, 1]) {
        0 => (0..n).map(|_| (b'0' + s.upto(9) as u8) as char).collect(),
        1 => "0".repeat(n),
        2 => "9".repeat(n),
        _ => {
            let mut v = vec!['0'; n];
            if n > 0 {
                let i = s.below(n);
                v[i] = (b'0' + s.upto(9) as u8) as char
            }
            v.into_iter().collect()
        }
    }
}
fn cur_string(s: &mut Src) -> String {
    let lit;
    let u = match s.one_in(60) {
        true => {
            lit = s.known_text();
            lit.as_str()
        }
        false => *s.pick(&UNITS),
    };
    let exp: usize = match u {
        "pS" => 12,
        "nS" => 15,
        "uS" => 18,
        "mS" => 21,
        "SC" => 24,
        "KS" => 27,
        "MS" => 30,
        "GS" => 33,
        "TS" => 36,
        _ => 0,
    };
    let sep = match s.weighted(&[6, 3, 1]) {
        0 => " ",
        1 => "",
        _ => *s.pick(&["  ", "\t", "\u{a0}", "\n"]),
    };
    match s.weighted(&[6, 4, 2, 2, 1]) {
        0 => {
            let i = match s.weighted(&[3, 2, 1]) {
                0 => 1 + s.upto(5) as usize,
                1 => (39usize.saturating_sub(exp) + s.upto(3) as usize).saturating_sub(1).max(1),
                _ => s.upto(60) as usize,
            };
            let f = match s.weighted(&[3, 3, 3, 1]) {
                0 => 0,
                1 => (exp + s.upto(2) as usize).saturating_sub(1),
                2 => s.upto(exp.max(1) as u64) as usize,
                _ => s.upto(70) as usize,
            };
            let mut t = digits(s, i);
            if f > 0 || s.one_in(12) {
                t.push('.');
                t += &digits(s, f);
            }
            t + sep + u
        }
        1 => {
            // an exact amount near the 128-bit limit, written in a unit
            let v = match s.weighted(&[2, 1]) {
                0 => s.u128(),
                _ => u128::MAX - s.upto(5) as u128,
            };
            let big = BigUint::from(v) + BigUint::from(s.upto(3));
            let d = format!("{:0>w$}", big.to_string(), w = exp + 1);
            let (a, b) = d.split_at(d.len() - exp);
            let b = if s.bool() { b.trim_end_matches('0') } else { b };
            let pad = if s.one_in(6) { "0".repeat(s.upto(20) as usize) } else { String::new() };
            if b.is_empty() && pad.is_empty() { format!("{a}{sep}{u}") } else { format!("{a}.{b}{pad}{sep}{u}") }
        }
        2 => {
            let mut t = cur_string_simple(s);
            match s.upto(2) {
                0 => edit_text(&mut t, s),
                _ => {
                    // something that number syntaxes elsewhere allow
                    let at: Vec<usize> = t.char_indices().map(|x| x.0).chain([t.len()]).collect();
                    let i = *s.pick(&at);
                    t.insert_str(i, s.pick(&[".", ".", "+", "-", "_", ",", "e1", "0x", " ", "0", "'", "٣", "H", "\u{2009}"]));
                    if s.one_in(4) {
                        t.retain(|c| c != '.');
                    }
                }
            }
            t
        }
        3 => {
            let n = s.upto(12) as usize;
            (0..n).map(|_| *s.pick(&['0', '1', '9', '.', ' ', '-', '+', 'S', 'C', 'H', 'K', 'e', '_', ',', 'é', 'x'])).collect()
        }
        _ => s.text(),
    }
}
fn cur_string_simple(s: &mut Src) -> String {
    let u = *s.pick(&UNITS);
    let k = 1 + s.upto(6) as usize;
    format!("{}.{} {u}", digits(s, k), digits(s, 3))
}
fn c18() -> Prop {
    let subs = vec![
        sub("render", 100_000, 3_000_000, |s, c| {
            let v = s.u128();
            c.nt_if(v > 0);
            let cur = st::Currency::new(v);
            let t = cur.to_string();
            if t != v.to_string() {
                return Err(format!("{v} rendered as {t}"));
            }
            c.sample(|| t.clone());
            let p = quiet(|| st::Currency::parse_string(&t)).map_err(|p| format!("panicked: {p} on {t:?}"))?.map_err(|e| format!("refused {t:?}: {e:?}"))?;
            if p != cur || *p != v {
                return Err(format!("{t} parsed as {p:?}"));
            }
            let j = serde_json::to_string(&cur).map_err(|e| e.to_string())?;
            if j != format!("\"{v}\"") || serde_json::from_str::<st::Currency>(&j).ok() != Some(cur) {
                return Err(format!("JSON {j} for {v}"));
            }
            Ok(())
        }),
        sub("parse", 400_000, 20_000_000, |s, c| {
            let t = cur_string(s);
            let mut tol = Tol::default();
            let want = match currency(&t, &mut tol) {
                Ok(v) => Some(v),
                Err(_) => None,
            };
            c.nt_if(t.len() > 1);
            c.label(match &want {
                Some(0) => "zero",
                Some(_) => "amount",
                None => match tol.why {
                    "too large" => "too large",
                    "finer than a hasting" => "too fine",
                    "unit" => "unknown unit",
                    _ => "malformed",
                },
            });
            c.sample(|| format!("{t:?} -> {want:?}"));
            let got = quiet(|| st::Currency::parse_string(&t)).map_err(|p| format!("parse_string panicked: {p} on {t:?}"))?;
            let js = quiet(|| serde_json::from_value::<st::Currency>(Value::String(t.clone()))).map_err(|p| format!("deserialization panicked: {p} on {t:?}"))?;
            if got.as_ref().ok() != js.as_ref().ok() {
                return Err(format!("parse_string says {got:?}, JSON says {js:?} on {t:?}"));
            }
            match (want, got) {
                (None, Ok(v)) => Err(format!("{t:?} accepted as {} ({})", *v, tol.why)),
                (Some(w), Ok(v)) if *v != w => Err(format!("{t:?} parsed as {}, it is {w}", *v)),
                (Some(w), Err(e)) if !tol.may => Err(format!("{t:?} refused ({e:?}), it is {w}")),
                _ => Ok(()),
            }
        }),
        sub("integers of any width", 20_000, 500_000, |s, c| {
            use serde::de::value::Error;
            use serde::de::{Deserialize, IntoDeserializer};
            let v = s.u128();
            let n = match s.bool() {
                true => v as i128,
                false => s.u64() as i64 as i128,
            };
            c.nt();
            c.sample(|| format!("{v} {n}"));
            macro_rules! widths { ($($x:expr, $t:ty);*) => {$(
                let x = $x as $t;
                let got = quiet(|| st::Currency::deserialize(IntoDeserializer::<Error>::into_deserializer(x))).map_err(|p| format!("panicked on {x}: {p}"))?;
                match (u128::try_from(x), got) {
                    (Ok(w), Ok(g)) if *g == w => {}
                    (Err(_), Err(_)) => {}
                    (_, g) => return Err(format!("the {} {x} gave {g:?}", stringify!($t))),
                }
            )*} }
            widths!(v, u8; v, u16; v, u32; v, u64; v, u128; n, i8; n, i16; n, i32; n, i64; n, i128);
            Ok(())
        }),
        sub("JSON numbers", 20_000, 500_000, |s, c| {
            let (t, want) = match s.upto(3) {
                0 => {
                    let n = s.u64();
                    (n.to_string(), Some(n as u128))
                }
                1 => {
                    let n = s.u64() as i64;
                    (n.to_string(), u128::try_from(n).ok())
                }
                2 => {
                    let n = s.u64() as f64 / 3.0;
                    (format!("{n:?}"), None)
                }
                _ => (format!("{}{}", 1 + s.u64() as u128, "0".repeat(20)), None),
            };
            c.nt();
            c.sample(|| t.clone());
            let got = quiet(|| serde_json::from_str::<st::Currency>(&t)).map_err(|p| format!("panicked: {p} on {t}"))?;
            match (want, got) {
                (Some(w), Ok(v)) if *v == w => Ok(()),
                (None, Err(_)) => Ok(()),
                (w, g) => Err(format!("JSON number {t} gave {g:?}, expected {w:?}")),
            }
        }),
    ];
    Prop {
        id: "C18",
        rule: "amounts rendered and parsed back; strings built as digits[.digits][space][unit] with digit counts concentrated at the one-hasting and 128-bit limits, exact amounts rewritten in every unit, edited and random strings, compared with a big-integer reference parser; non-trivial = more than one character",
        assumptions: &["white space other than one optional space, a leading or trailing decimal point, and decimals of whole hastings may be accepted (with the exact value) or refused"],
        subs,
    }
}
pub fn props() -> Vec<Prop> {
    vec![c07(), c18()]
}
