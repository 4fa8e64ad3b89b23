//! Fuzzing dictionary: integer and string literals of the code under test, which generators offer
//! now and then, so that a constant the code compares with is met. It only adds inputs; nothing is
//! judged by it.
use std::sync::OnceLock;

#[derive(Default)]
pub struct Dict {
    pub ints: Vec<u128>,
    pub strs: Vec<Vec<u8>>,
}
pub fn get() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut files = Vec::new();
        for d in ["sia/src", "sia_derive/src"] {
            walk(std::path::Path::new(concat!(env!("CARGO_MANIFEST_DIR"), "/../../repo")).join(d), &mut files);
        }
        files.sort();
        let mut d = Dict::default();
        for f in files {
            if let Ok(s) = std::fs::read_to_string(&f) {
                scan(s.split("#[cfg(test)]").next().unwrap_or(""), &mut d);
            }
        }
        d.ints.sort();
        d.ints.dedup();
        d.strs.sort();
        d.strs.dedup();
        d
    })
}
fn walk(p: std::path::PathBuf, out: &mut Vec<std::path::PathBuf>) {
    let Ok(rd) = std::fs::read_dir(p) else { return };
    for e in rd.flatten() {
        let p = e.path();
        if p.is_dir() {
            walk(p, out);
        } else if p.extension().is_some_and(|x| x == "rs") {
            out.push(p);
        }
    }
}
/// one integer literal at the front: value and length
fn int(b: &[u8]) -> Option<(u128, usize)> {
    let (radix, start) = match b {
        [b'0', b'x', ..] => (16, 2),
        [b'0', b'b', ..] => (2, 2),
        [b'0', b'o', ..] => (8, 2),
        [b'0'..=b'9', ..] => (10, 0),
        _ => return None,
    };
    let (mut v, mut i) = (0u128, start);
    while i < b.len() {
        match (b[i] as char).to_digit(radix) {
            Some(d) => v = v.checked_mul(radix as u128)?.checked_add(d as u128)?,
            None if b[i] == b'_' => {}
            None => break,
        }
        i += 1;
    }
    // a type suffix
    while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
        i += 1;
    }
    Some((v, i))
}
pub fn scan(s: &str, d: &mut Dict) {
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'/' if b[i..].starts_with(b"//") => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'"' => {
                let mut v = Vec::new();
                i += 1;
                while i < b.len() && b[i] != b'"' {
                    if b[i] != b'\\' {
                        v.push(b[i]);
                        i += 1;
                        continue;
                    }
                    let hex = b.get(i + 2..i + 4).and_then(|h| std::str::from_utf8(h).ok()).and_then(|h| u8::from_str_radix(h, 16).ok());
                    match (b.get(i + 1), hex) {
                        (Some(b'x'), Some(h)) => {
                            v.push(h);
                            i += 2;
                        }
                        (Some(b'n'), _) => v.push(b'\n'),
                        (Some(b'r'), _) => v.push(b'\r'),
                        (Some(b't'), _) => v.push(b'\t'),
                        (Some(b'0'), _) => v.push(0),
                        (c, _) => v.extend(c),
                    }
                    i += 2;
                }
                i += 1;
                if !v.is_empty() && v.len() <= 16 {
                    d.ints.push(v.iter().fold(0, |n, b| n << 8 | *b as u128));
                }
                if !v.is_empty() && v.len() <= 100 && std::str::from_utf8(&v).is_ok() {
                    d.strs.push(v);
                }
            }
            // a character or byte
            b'\'' if b.get(i + 2) == Some(&b'\'') && b[i + 1] != b'\\' => {
                d.ints.push(b[i + 1] as u128);
                i += 3;
            }
            c if c.is_ascii_digit() => {
                let Some((mut v, n)) = int(&b[i..]) else {
                    i += 1;
                    continue;
                };
                i += n;
                d.ints.push(v);
                // products and shifts of literals
                loop {
                    let r = s.get(i..).unwrap_or("").trim_start();
                    let found = [("* ", '*'), ("<< ", '<'), ("+ ", '+'), ("- ", '-'), (".pow(", '^')].into_iter().find_map(|(t, op)| Some((op, r.strip_prefix(t)?.trim_start())));
                    let Some((op, r)) = found else { break };
                    let Some((w, n)) = int(r.as_bytes()) else { break };
                    i = b.len() - r.len() + n;
                    d.ints.push(w);
                    let x = match op {
                        '*' => v.checked_mul(w),
                        '+' => v.checked_add(w),
                        '-' => v.checked_sub(w),
                        '^' => v.checked_pow(w.min(1000) as u32),
                        _ => (w < 128).then(|| v << w),
                    };
                    match x {
                        Some(x) => v = x,
                        None => break,
                    }
                    d.ints.push(v);
                }
            }
            c if c.is_ascii_alphabetic() || c == b'_' => {
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                    i += 1;
                }
            }
            _ => i += 1,
        }
    }
}