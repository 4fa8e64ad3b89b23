//! C03 (JSON form), C05 (hostile text), C25 (binary serde)
use super::codec::{tname, trunc};
use crate::engine::*;
use crate::js_types;
use crate::tree::{from_tree, to_tree};
use crate::model::*;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::fmt::Debug;

pub trait JT: J
where
    Self::S: Serialize + DeserializeOwned + PartialEq + Debug,
{
}
impl<T: J> JT for T where T::S: Serialize + DeserializeOwned + PartialEq + Debug {}

fn weight<T>() -> (u64, u64) {
    match tname::<T>().as_str() {
        "Tx2" | "Tx1" | "Blk" | "Pol" | "SatPol" | "Res" | "St" | "ScIn2" | "SfIn2" | "TxSig" | "Cs" | "Net" => (6000, 300_000),
        _ => (3000, 100_000),
    }
}
fn show(v: &Value) -> String {
    trunc(v.to_string(), 400)
}
/// first differing path
fn jdiff(a: &Value, b: &Value, path: &str) -> Option<String> {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for k in x.keys() {
                if !y.contains_key(k) {
                    return Some(format!("{path}: unexpected key {k:?}"));
                }
            }
            for (k, v) in y {
                match x.get(k) {
                    None => return Some(format!("{path}: missing key {k:?}")),
                    Some(w) => {
                        if let Some(d) = jdiff(w, v, &format!("{path}/{k}")) {
                            return Some(d);
                        }
                    }
                }
            }
            None
        }
        (Value::Array(x), Value::Array(y)) if x.len() == y.len() => x.iter().zip(y).enumerate().find_map(|(i, (p, q))| jdiff(p, q, &format!("{path}/{i}"))),
        _ if a == b => None,
        _ => Some(format!("{path}: got {} expected {}", show(a), show(b))),
    }
}
fn too_deep(m: &Value) -> bool {
    fn d(v: &Value) -> usize {
        match v {
            Value::Array(a) => 1 + a.iter().map(d).max().unwrap_or(0),
            Value::Object(a) => 1 + a.values().map(d).max().unwrap_or(0),
            _ => 0,
        }
    }
    d(m) > 110
}

// ------------------------------------------------------------------ C03
fn json_case<T: J>(m: T, s: &mut Src, c: &mut Cx) -> R
where
    T::S: Serialize + DeserializeOwned + PartialEq + Debug,
{
    let v = m.to();
    let r = quiet(|| serde_json::to_string(&v)).map_err(|p| format!("serialization panicked: {p} for {m:?}"))?;
    let rv = quiet(|| serde_json::to_value(&v)).map_err(|p| format!("serialization panicked: {p} for {m:?}"))?;
    if !m.okj() {
        c.label("not representable");
        c.nt();
        if let Ok(t) = r {
            return Err(format!("a value JSON cannot represent was written as {}", trunc(t, 400)));
        }
        if let Ok(t) = rv {
            return Err(format!("a value JSON cannot represent was written as {}", show(&t)));
        }
        return Ok(());
    }
    let text = r.map_err(|e| format!("serialization failed: {e} for {m:?}"))?;
    let val = rv.map_err(|e| format!("serialization failed: {e} for {m:?}"))?;
    let want = m.js();
    c.nt_if(text.len() > 2);
    c.sample(|| format!("{} {}", tname::<T>(), text));
    let parsed: Value = serde_json::from_str(&text).map_err(|e| format!("the JSON text does not parse: {e}: {}", trunc(text.clone(), 400)))?;
    for got in [&parsed, &val] {
        if let Some(d) = jdiff(got, &want, "") {
            return Err(format!("JSON differs at {d}; for {}", trunc(format!("{m:?}"), 800)));
        }
    }
    let mut t2 = String::new();
    render(&want, s, &mut t2);
    let pretty = serde_json::to_string_pretty(&want).unwrap();
    for (how, r) in [
        ("from_str of its own text", quiet(|| serde_json::from_str::<T::S>(&text))),
        ("from_str of a respelled text", quiet(|| serde_json::from_str::<T::S>(&t2))),
        ("from_slice", quiet(|| serde_json::from_slice::<T::S>(pretty.as_bytes()))),
        ("from_value", quiet(|| serde_json::from_value::<T::S>(want.clone()))),
        ("from_reader", quiet(|| serde_json::from_reader::<_, T::S>(text.as_bytes()))),
    ] {
        let d = r.map_err(|p| format!("{how} panicked: {p}; {}", trunc(t2.clone(), 600)))?.map_err(|e| format!("{how} failed: {e}; {}", trunc(t2.clone(), 600)))?;
        let dm = T::of(&d);
        if dm != m || d != v {
            return Err(format!("{how} gave {} from {} (PartialEq says {})", trunc(format!("{dm:?}"), 600), trunc(format!("{m:?}"), 600), d == v));
        }
    }
    Ok(())
}
macro_rules! js_conform { ($($t:ty),*) => { vec![$({
    let (q, t) = weight::<$t>();
    sub(tname::<$t>(), q, t, |s: &mut Src, c: &mut Cx| { let m = <$t as M>::gen(s); json_case::<$t>(m, s, c) })
}),*] }; }
fn any_dur(s: &mut Src) -> Dur {
    let d = match s.upto(2) {
        0 => (s.u64() as i64) as i128,
        1 => (s.u128() >> 64) as i128 - (1i128 << 63),
        _ => *s.pick(&[-1i128, i64::MAX as i128 + 1, u64::MAX as i128, u64::MAX as i128 + 1, i64::MIN as i128, -(1i128 << 64) + 5, (1i128 << 64) + 5]),
    };
    Dur(d)
}
fn c03() -> Prop {
    let mut subs = js_types!(js_conform);
    subs.push(sub("networks with any duration", 6000, 60_000, |s, c| {
        let mut n = Net::gen(s);
        if s.bool() {
            n.block_interval = any_dur(s)
        } else {
            n.hardfork_asic.oak_time = any_dur(s)
        }
        c.label_if(!n.okj(), "duration out of range");
        json_case(n, s, c)
    }));
    subs.push(sub("states with any duration", 4000, 40_000, |s, c| {
        let mut n = St::gen(s);
        n.oak_time = any_dur(s);
        json_case(n, s, c)
    }));
    subs.push(sub("nested policies", 2000, 40_000, |s, c| {
        let d = 1 + s.upto(30);
        let mut p = Pol::leaf(s);
        for _ in 0..d {
            p = Pol::Thresh(u8::gen(s), vec![p]);
        }
        if too_deep(&p.js()) {
            return Ok(());
        }
        json_case(p, s, c)
    }));
    Prop {
        id: "C03",
        rule: "every serde type: random model value -> serde_json text and value compared key by key with reference JSON; the text, a respelled text (shuffled keys, white space, \\u escapes), pretty bytes, a reader and a Value all parse back to the equal value; values without a JSON form must fail to serialize; non-trivial = more than 2 characters",
        assumptions: &["timestamps are whole seconds", "JSON nested deeper than serde_json's own limit of 128 is out of scope"],
        subs,
    }
}

// ------------------------------------------------------------------ C05
fn paths(v: &Value, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    out.push(cur.clone());
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate().take(40) {
                cur.push(i);
                paths(x, cur, out);
                cur.pop();
            }
        }
        Value::Object(m) => {
            for (i, x) in m.values().enumerate() {
                cur.push(i);
                paths(x, cur, out);
                cur.pop();
            }
        }
        _ => {}
    }
}
fn at<'a>(v: &'a mut Value, p: &[usize]) -> &'a mut Value {
    match p.split_first() {
        None => v,
        Some((i, r)) => match v {
            Value::Array(a) => at(&mut a[*i], r),
            Value::Object(m) => at(m.values_mut().nth(*i).unwrap(), r),
            _ => unreachable!(),
        },
    }
}
fn junk(s: &mut Src) -> Value {
    match s.upto(11) {
        0 => Value::Null,
        1 => json!(s.bool()),
        2 => json!(s.u64()),
        3 => json!(s.u64() as i64),
        4 => json!(s.u64() as f64 / 8.0),
        5 => json!(s.text()),
        6 => json!([]),
        7 => json!({}),
        8 => json!(crate::refhash::hex(&s.arr::<32>())),
        9 => json!("1970-01-01T00:00:00Z"),
        10 => json!([1, 2, 3]),
        _ => json!({"type": "above", "policy": 1}),
    }
}
const STRINGS: [&str; 40] = [
    "", ":", "a", "0", "00", "-1", "1.5 SC", "1 TS", "999999999999999 TS", "1e3", "340282366920938463463374607431768211455", "340282366920938463463374607431768211456",
    "115792089237316195423570985008687907853269984665640564039457584007913129639935", "115792089237316195423570985008687907853269984665640564039457584007913129639936", "ed25519:", "ed25519:00",
    "entropy:", "averyveryverylongname:00", "a:b:00", "9999-12-31T23:59:59Z", "0000-01-01T00:00:00Z", "2023-02-29T00:00:00Z", "2024-02-29T00:00:00Z", "2024-02-30T00:00:00Z", "1970-01-01T24:00:00Z", "1970-01-01T00:00:00",
    "1970-01-01", "AAAA", "AAA=", "AA==", "A===", "AAB=", "AB==", "AAAA=", "-_-_", "renewal", "expiration", "storageProof", "above", "uc",
];
fn edit_str(t: &str, s: &mut Src) -> String {
    let v: Vec<char> = t.chars().collect();
    let n = v.len();
    let mut w = v.clone();
    match s.weighted(&[4, 3, 2, 2, 2, 2, 1]) {
        0 if n > 0 => {
            let i = s.below(n);
            w[i] = *s.pick(&['0', '1', '9', 'a', 'f', 'A', 'F'])
        }
        1 if n > 0 => {
            let i = s.below(n);
            w[i] = *s.pick(&['g', ' ', ':', '=', '.', '-', '+', 'é', '\0', 'Z', '/', 'T', '\n', '"'])
        }
        2 if n > 0 => {
            let i = s.below(n);
            w.remove(i);
        }
        3 => {
            let i = s.upto(n as u64) as usize;
            w.insert(i, *s.pick(&['0', 'a', ':', ' ', '=', '.', '9', '中', '+', '_']))
        }
        4 if n > 0 => {
            let k = s.upto(n as u64) as usize;
            w.truncate(k)
        }
        5 => match s.upto(9) {
            0 => return s.known_text(),
            1 => return s.known_text() + t,
            _ => return s.pick(&STRINGS).to_string(),
        },
        _ => return t.to_uppercase(),
    }
    w.into_iter().collect()
}
fn mutate_json(v: &mut Value, s: &mut Src) {
    let mut ps = vec![];
    paths(v, &mut vec![], &mut ps);
    // leaves and containers, biased to the deep ones
    let i = s.below(ps.len());
    let p = ps[i].clone();
    let n = at(v, &p);
    match n {
        Value::String(t) if s.weighted(&[5, 1]) == 0 => {
            *t = edit_str(&t.clone(), s);
        }
        Value::Number(_) if s.weighted(&[5, 1]) == 0 => {
            *n = match s.upto(7) {
                0 => json!(0),
                1 => json!(u64::MAX),
                2 => json!(s.pick(&[255u64, 256, 65535, 65536, 1 << 32, 1 << 53, 1 << 63, i64::MAX as u64]).to_owned()),
                3 => json!(-1),
                4 => json!(i64::MIN),
                5 => json!(1.5),
                6 => json!(s.u64()),
                _ => json!(s.u64().to_string()),
            }
        }
        Value::Array(a) if s.weighted(&[5, 1]) == 0 => match s.upto(4) {
            0 if !a.is_empty() => {
                let i = s.below(a.len());
                a.remove(i);
            }
            1 if !a.is_empty() => {
                let i = s.below(a.len());
                let x = a[i].clone();
                a.push(x)
            }
            2 => a.push(junk(s)),
            3 => a.clear(),
            _ => {
                if let Some(x) = a.first().cloned() {
                    for _ in 0..s.upto(12) {
                        a.push(x.clone())
                    }
                }
            }
        },
        Value::Object(m) if s.weighted(&[6, 1]) == 0 => {
            let ks: Vec<String> = m.keys().cloned().collect();
            match s.upto(3) {
                0 if !ks.is_empty() => {
                    let k = s.pick(&ks);
                    m.remove(k);
                }
                1 => {
                    let k = s.pick(&["extra", "ID", "value", "n", "type", "Height", "", "signatures"]).to_string();
                    let j = junk(s);
                    m.insert(k, j);
                }
                2 if !ks.is_empty() => {
                    let k = s.pick(&ks).clone();
                    let x = m.remove(&k).unwrap();
                    let nk = match s.upto(2) {
                        0 => k.to_lowercase(),
                        1 => k.to_uppercase(),
                        _ => format!("{k} "),
                    };
                    m.insert(nk, x);
                }
                _ => {
                    if ks.len() > 1 {
                        let (a, b) = (s.pick(&ks).clone(), s.pick(&ks).clone());
                        let x = m[&a].clone();
                        let y = m[&b].clone();
                        m.insert(a, y);
                        m.insert(b, x);
                    }
                }
            }
        }
        _ => *n = junk(s),
    }
}
/// values whose JSON the reference would not produce (unserializable) are drawn again
fn gen_okj<T: J>(s: &mut Src) -> T {
    for _ in 0..20 {
        let m = T::gen(s);
        if m.okj() {
            return m;
        }
    }
    T::gen(s)
}
fn hostile_value<T: J>(s: &mut Src, c: &mut Cx) -> R
where
    T::S: Serialize + DeserializeOwned + PartialEq + Debug,
{
    let m = gen_okj::<T>(s);
    if !m.okj() {
        return Ok(());
    }
    let mut v = m.js();
    if s.one_in(25) {
        v = junk(s);
    } else {
        for _ in 0..*s.pick(&[1usize, 1, 1, 2, 3]) {
            mutate_json(&mut v, s);
        }
    }
    if too_deep(&v) {
        return Ok(());
    }
    let text = v.to_string();
    c.sample(|| format!("{} {}", tname::<T>(), text));
    let mut tol = Tol::default();
    let want = T::pj(&v, &mut tol);
    for how in 0..2 {
        let got = if how == 0 { quiet(|| serde_json::from_str::<T::S>(&text)) } else { quiet(|| serde_json::from_value::<T::S>(v.clone())) }
            .map_err(|p| format!("deserialization panicked: {p}; {}", trunc(text.clone(), 800)))?;
        match (&want, got) {
            (Err(JE::Skip), _) => c.label("undecided"),
            (Err(JE::Reject), Ok(_)) => return Err(format!("malformed JSON accepted ({}): {}", tol.why, trunc(text, 800))),
            (Err(JE::Reject), Err(_)) => {
                c.label("rejected");
                c.nt();
            }
            (Ok(_), Err(_)) if tol.may => c.label("lenient form refused"),
            (Ok(_), Err(e)) => return Err(format!("well-formed JSON refused: {e}: {}", trunc(text, 800))),
            (Ok(x), Ok(g)) => {
                c.label("accepted");
                c.nt();
                let gm = T::of(&g);
                if gm != *x {
                    return Err(format!("JSON {} was read as {}, it denotes {}", trunc(text, 500), trunc(format!("{gm:?}"), 500), trunc(format!("{x:?}"), 500)));
                }
            }
        }
    }
    Ok(())
}
fn hostile_text<T: J>(s: &mut Src, c: &mut Cx) -> R
where
    T::S: Serialize + DeserializeOwned + PartialEq + Debug,
{
    let m = gen_okj::<T>(s);
    if !m.okj() {
        return Ok(());
    }
    let mut t = String::new();
    render(&m.js(), s, &mut t);
    let mut b = t.into_bytes();
    for _ in 0..1 + s.upto(3) {
        let n = b.len();
        if n == 0 {
            break;
        }
        let i = s.below(n);
        match s.upto(6) {
            0 => b[i] = *s.pick(b"{}[]:,\"\\0123456789eE+-.nulltrue \xff\xc3\x80"),
            1 => {
                b.remove(i);
            }
            2 => b.truncate(i),
            3 => {
                let k = 1 + s.upto(30.min(n - i - 1) as u64) as usize;
                let d = b[i..i + k].to_vec();
                b.splice(i..i, d);
            }
            4 => {
                // blow up a number or a string
                let d: &[u8] = s.pick(&[&b"99999999999999999999"[..], b"e400", b"-", b".5", b"\\u0000", b"\\ud800", b"null", b"[[[[[[[[[[[[[[[[", b"0"]);
                b.splice(i..i, d.iter().copied());
            }
            5 => b[i] ^= 1 << s.upto(7),
            _ => {
                // duplicate a key
                if let Some(q) = b.iter().position(|x| *x == b'{') {
                    let close = b.len();
                    let frag = b[q + 1..(q + 60).min(close)].to_vec();
                    if let Some(e) = frag.iter().position(|x| *x == b',') {
                        b.splice(q + 1..q + 1, frag[..=e].to_vec());
                    }
                }
            }
        }
    }
    c.nt();
    c.sample(|| format!("{} {}", tname::<T>(), String::from_utf8_lossy(&b)));
    let show = |b: &[u8]| trunc(String::from_utf8_lossy(b).into_owned(), 800);
    let r = quiet(|| serde_json::from_slice::<T::S>(&b)).map_err(|p| format!("deserialization panicked: {p}; {}", show(&b)))?;
    let v = match r {
        Err(_) => {
            c.label("rejected");
            return Ok(());
        }
        Ok(v) => v,
    };
    c.label("accepted");
    // whatever was accepted is a value like any other: it serializes and comes back
    let t1 = quiet(|| serde_json::to_string(&v)).map_err(|p| format!("serializing an accepted value panicked: {p}; {}", show(&b)))?.map_err(|e| format!("an accepted value does not serialize: {e}; {}", show(&b)))?;
    let v2 = serde_json::from_str::<T::S>(&t1).map_err(|e| format!("an accepted value does not come back: {e}; {t1}"))?;
    let t2 = serde_json::to_string(&v2).map_err(|e| e.to_string())?;
    if t1 != t2 {
        return Err(format!("an accepted value changes when stored: {} became {}", trunc(t1, 400), trunc(t2, 400)));
    }
    Ok(())
}
macro_rules! js_hostile { ($($t:ty),*) => { vec![$({
    let (q, t) = weight::<$t>();
    sub(tname::<$t>(), q * 2, t * 3, hostile_value::<$t>)
}),*] }; }
macro_rules! js_hostile_text { ($($t:ty),*) => { vec![$({
    let (q, t) = weight::<$t>();
    sub(format!("{} text", tname::<$t>()), q, t * 2, hostile_text::<$t>)
}),*] }; }
fn c05() -> Prop {
    let mut subs = js_types!(js_hostile);
    subs.extend(js_types!(js_hostile_text));
    subs.push(
        sub("deeply nested policies on a 2 MiB stack", 60, 1200, |s, c| {
            let depth = *s.pick(&[5usize, 20, 40, 60, 100, 126, 127, 128, 130, 200, 1000, 10_000, 200_000]);
            let open = match s.upto(2) {
                0 => r#"{"type":"thresh","policy":{"n":1,"of":["#,
                1 => r#"{"policy":{"of":["#,
                _ => "[",
            };
            let mut t = open.repeat(depth);
            if s.bool() {
                t.push_str(r#"{"type":"above","policy":1}"#);
                t.push_str(&match open.len() {
                    1 => "]".repeat(depth),
                    17 => r#"],"n":1},"type":"thresh"}"#.repeat(depth),
                    _ => "]}}".repeat(depth),
                });
            }
            c.nt_if(depth > 100);
            c.sample(|| format!("depth {depth}"));
            let r = super::codec::small_stack(|| serde_json::from_str::<sia::types::v2::SpendPolicy>(&t).map(|p| Pol::of(&p).depth()));
            match r.map_err(|p| format!("panicked: {p} at depth {depth}"))? {
                Ok(d) if d == depth + 1 => Ok(()),
                Ok(d) => Err(format!("{depth} levels were read as {d}")),
                Err(_) => Ok(()),
            }
        })
        .threads(4),
    );
    Prop {
        id: "C05",
        rule: "every serde type: reference JSON of a random value with 1-3 tree mutations (other kinds, boundary numbers, edited hex/base64/dates/amounts, removed/added/renamed/swapped keys, array edits) compared with a reference parser's verdict and value via from_str and from_value; plus byte-level corruption of the text, where an accepted value must serialize and come back unchanged; deep nesting on a small stack; non-trivial = decided case",
        assumptions: &["positional (array) forms of structs, non-canonical date spellings, unknown keys and missing trailing timestamps are left to the implementation"],
        subs,
    }
}

// ------------------------------------------------------------------ C25
fn cbor_case<T: J>(m: T, s: &mut Src, c: &mut Cx) -> R
where
    T::S: Serialize + DeserializeOwned + PartialEq + Debug,
{
    if !m.okj() {
        c.label("not representable as JSON");
        return Ok(());
    }
    let v = m.to();
    let mut b = Vec::new();
    quiet(|| ciborium::into_writer(&v, &mut b)).map_err(|p| format!("CBOR serialization panicked: {p}"))?.map_err(|e| format!("CBOR serialization failed: {e} for {}", trunc(format!("{m:?}"), 500)))?;
    c.nt_if(b.len() > 1);
    c.sample(|| format!("{} {}", tname::<T>(), crate::refhash::hex(&b)));
    let d = quiet(|| ciborium::from_reader::<T::S, _>(&b[..]))
        .map_err(|p| format!("CBOR deserialization panicked: {p}"))?
        .map_err(|e| format!("its own CBOR form is refused: {e}; {}", trunc(format!("{m:?}"), 500)))?;
    let dm = T::of(&d);
    if dm != m || d != v {
        return Err(format!("CBOR round trip gave {} from {}", trunc(format!("{dm:?}"), 500), trunc(format!("{m:?}"), 500)));
    }
    // the same in a format that keeps byte strings, sequences and text apart, with the keys in any order
    let mut n = quiet(|| to_tree(&v)).map_err(|p| format!("serialization panicked: {p}"))?.map_err(|e| format!("serialization to a binary format failed: {e} for {}", trunc(format!("{m:?}"), 500)))?;
    if s.bool() {
        n.shuffle(s);
    }
    let d = quiet(|| from_tree::<T::S>(n.clone()))
        .map_err(|p| format!("deserialization panicked: {p}"))?
        .map_err(|e| format!("its own binary form is refused: {e}; {}", trunc(format!("{n:?}"), 500)))?;
    if T::of(&d) != m || d != v {
        return Err(format!("binary round trip gave {} from {}", trunc(format!("{:?}", T::of(&d)), 500), trunc(format!("{m:?}"), 500)));
    }
    Ok(())
}
macro_rules! cbor { ($($t:ty),*) => { vec![$({
    let (q, t) = weight::<$t>();
    sub(tname::<$t>(), q, t, |s: &mut Src, c: &mut Cx| { let m = <$t as M>::gen(s); cbor_case::<$t>(m, s, c) })
}),*] }; }
fn c25() -> Prop {
    Prop {
        id: "C25",
        rule: "every serde type: random value -> CBOR (ciborium, not human readable) -> value must be equal; likewise through an in-house binary data model as strict as MessagePack (bytes, sequences and text distinct), with map keys shuffled; non-trivial = more than one byte",
        assumptions: &["CBOR stands for self-describing binary serde formats", "values whose JSON form does not exist are left out"],
        subs: js_types!(cbor),
    }
}
pub fn props() -> Vec<Prop> {
    vec![c03(), c05(), c25()]
}
