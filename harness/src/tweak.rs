//! Small semantic edits: the JSON form of a model value is changed at one random place and
//! read back with the reference parser, so a tweak is a well-formed, different value of the
//! same type.
use crate::engine::Src;
use crate::model::{Tol, J};
use crate::refhash::*;
use serde_json::{json, Value};

pub fn gen_okj<T: J>(s: &mut Src) -> T {
    for _ in 0..20 {
        let m = T::gen(s);
        if m.okj() {
            return m;
        }
    }
    T::gen(s)
}
/// the same bytes with changes at two places that may cancel out
pub fn twice(b: &[u8], s: &mut Src) -> Vec<u8> {
    let mut b = b.to_vec();
    let i = s.below(b.len());
    // often near each other
    let j = match s.upto(3) {
        0 => (i + 1) % b.len(),
        1 => i ^ (1 << s.upto(5)),
        _ => s.below(b.len()),
    };
    let j = if j < b.len() { j } else { i };
    match s.upto(3) {
        0 => b.swap(i, j),
        1 => {
            let d = s.upto(254) as u8 + 1;
            b[i] ^= d;
            if i != j {
                b[j] ^= d;
            }
        }
        2 => {
            let d = s.upto(254) as u8 + 1;
            b[i] = b[i].wrapping_add(d);
            if i != j {
                b[j] = b[j].wrapping_sub(d);
            }
        }
        _ => b.reverse(),
    }
    b
}
fn tweak_str(t: &str, s: &mut Src) -> String {
    let hexish = |t: &str| t.len() >= 2 && t.len() % 2 == 0 && t.bytes().all(|c| c.is_ascii_hexdigit());
    let flip = |t: &str, s: &mut Src| -> String {
        let mut b = t.as_bytes().to_vec();
        let i = s.below(b.len());
        let d = unhex(&format!("0{}", b[i] as char)).unwrap()[0];
        let n = (d + 1 + s.upto(14) as u8) % 16;
        b[i] = hex(&[n]).as_bytes()[1];
        String::from_utf8(b).unwrap()
    };
    if t.len() == 76 && hexish(t) {
        let mut a: [u8; 32] = unhex(t).unwrap()[..32].try_into().unwrap();
        let i = s.below(32);
        if s.one_in(3) {
            return addr_text(twice(&a, s)[..].try_into().unwrap());
        }
        a[i] ^= 1 << s.upto(7);
        return addr_text(&a);
    }
    if matches!(t.len(), 64 | 128) && hexish(t) {
        return if s.one_in(3) { hex(&twice(&unhex(t).unwrap(), s)) } else { flip(t, s) };
    }
    if let Some((p, h)) = t.rsplit_once(':') {
        if hexish(h) && !s.one_in(4) {
            if s.one_in(3) {
                return format!("{p}:{}", hex(&twice(&unhex(h).unwrap(), s)));
            }
            return format!("{p}:{}", flip(h, s));
        }
        return match s.upto(2) {
            0 => format!("{p}x:{h}"),
            1 => format!("{p}:{h}00"),
            _ => format!("{}:{h}", p.get(..p.len().saturating_sub(1)).unwrap_or("")),
        };
    }
    if !t.is_empty() && t.bytes().all(|c| c.is_ascii_digit()) {
        let v: u128 = t.parse().unwrap_or(0);
        let w = match s.upto(3) {
            0 => v.wrapping_add(1),
            1 => v.wrapping_sub(1),
            2 => v ^ (1u128 << s.upto(127)),
            _ => s.u128(),
        };
        return w.to_string();
    }
    if t.len() == 20 && t.ends_with('Z') && t.contains('T') {
        // a timestamp: change one digit of the day, hour, minute or second
        let mut b = t.as_bytes().to_vec();
        let i = *s.pick(&[9usize, 12, 15, 18, 14, 17]);
        b[i] = b'0' + ((b[i] - b'0' + 1) % 6);
        return String::from_utf8(b).unwrap();
    }
    // base64 or free text
    let mut cs: Vec<char> = t.chars().collect();
    if cs.is_empty() || s.one_in(5) {
        return match unb64(t) {
            Some(mut b) if !s.one_in(3) => {
                b.push(s.upto(255) as u8);
                b64(&b)
            }
            _ => format!("{t}x"),
        };
    }
    if let (Some(mut b), true) = (unb64(t), cs.len() > 1) {
        match s.upto(3) {
            0 => {
                b.pop();
            }
            1 => b.push(0),
            _ => {
                let i = s.below(b.len());
                b[i] ^= 1 << s.upto(7);
            }
        }
        return b64(&b);
    }
    let i = s.below(cs.len());
    cs[i] = if cs[i] == 'q' { 'r' } else { 'q' };
    cs.into_iter().collect()
}
/// changes one place; returns where
fn tweak_at(v: &mut Value, s: &mut Src, path: String) -> String {
    match v {
        Value::Bool(b) => {
            *b = !*b;
            path
        }
        Value::Number(n) => {
            let x = n.as_u64().unwrap_or(0);
            let y = match s.upto(3) {
                0 => x.wrapping_add(1),
                1 => x.wrapping_sub(1),
                2 => x ^ (1 << s.upto(63)),
                _ => s.u64(),
            };
            *v = json!(y);
            path
        }
        Value::String(t) => {
            *v = json!(tweak_str(t, s));
            path
        }
        Value::Array(a) => {
            if a.is_empty() {
                return path;
            }
            if s.one_in(4) {
                let i = s.below(a.len());
                match s.upto(3) {
                    0 => {
                        a.remove(i);
                    }
                    1 => {
                        let x = a[i].clone();
                        a.insert(i, x)
                    }
                    2 => {
                        let j = s.below(a.len());
                        a.swap(i, j)
                    }
                    _ => a.clear(),
                }
                return path + "[edit]";
            }
            let i = s.below(a.len());
            tweak_at(&mut a[i], s, format!("{path}[{i}]"))
        }
        Value::Object(m) => {
            if m.is_empty() {
                return path;
            }
            let i = s.below(m.len());
            let (k, x) = m.iter_mut().nth(i).unwrap();
            let p = format!("{path}.{k}");
            tweak_at(x, s, p)
        }
        Value::Null => path,
    }
}
/// copies one subtree of `o` into `v` at the same place (adds optional parts)
fn graft(v: &mut Value, o: &Value, s: &mut Src, path: String) -> String {
    match (v, o) {
        (Value::Object(m), Value::Object(n)) if !n.is_empty() => {
            let i = s.below(n.len());
            let (k, x) = n.iter().nth(i).unwrap();
            let p = format!("{path}.{k}");
            match m.get_mut(k) {
                Some(y) if matches!(y, Value::Object(_)) && s.bool() => graft(y, x, s, p),
                _ => {
                    m.insert(k.clone(), x.clone());
                    p
                }
            }
        }
        (v, o) => {
            *v = o.clone();
            path
        }
    }
}
/// a different value of the same type, and where it differs
pub fn tweak<T: J>(m: &T, s: &mut Src) -> Option<(T, String)> {
    let v = m.js();
    for _ in 0..12 {
        let mut w = v.clone();
        let p = if s.one_in(5) {
            let o: T = gen_okj(s);
            graft(&mut w, &o.js(), s, String::new())
        } else {
            tweak_at(&mut w, s, String::new())
        };
        if let Ok(x) = T::pj(&w, &mut Tol::default()) {
            if x != *m && x.okj() {
                return Some((x, p));
            }
        }
    }
    None
}
