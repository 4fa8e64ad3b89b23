//! C24 derive macros and literal macros: generated Rust programs, compiled against the crate
use crate::engine::*;
use crate::model::p64;
use crate::refhash::{addr_text, hex};
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::process::Command;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;

/// reference description of a field type
#[derive(Clone, Debug)]
enum T {
    U8,
    Bool,
    Num(&'static str),
    Str,
    Arr(usize),
    Vec(Box<T>),
    Opt(Box<T>),
    /// 32-byte wrapper types of the library
    Lib32(&'static str),
    Cur,
    Time,
    Dur,
    Struct(usize),
}
#[derive(Clone, Debug)]
struct S {
    /// 0 named, 1 tuple, 2 unit
    shape: usize,
    v1: bool,
    v2: bool,
    fields: Vec<(String, String, T)>, // (visibility, name, type)
    depth: usize,
}
const NUMS: [&str; 7] = ["u16", "u32", "u64", "usize", "i16", "i32", "i64"];
const LIB32: [&str; 7] = ["Hash256", "Address", "BlockID", "TransactionID", "SiacoinOutputID", "SiafundOutputID", "FileContractID"];

fn gen_t(s: &mut Src, v1: bool, v2: bool, all: &[S], depth: u32) -> T {
    let nest = if depth == 0 { 0 } else { 2 };
    match s.weighted(&[2, 2, 6, 2, 2, nest, nest, 3, 2, 1, 1, 4]) {
        0 => T::U8,
        1 => T::Bool,
        2 => T::Num(s.pick(&NUMS)),
        3 => T::Str,
        4 => T::Arr(*s.pick(&[1usize, 0, 2, 8, 16, 31, 32, 33, 64])),
        5 => T::Vec(Box::new(gen_t(s, v1, v2, all, depth - 1))),
        6 => T::Opt(Box::new(gen_t(s, v1, v2, all, depth - 1))),
        7 => T::Lib32(s.pick(&LIB32)),
        8 => T::Cur,
        9 if !v1 => T::Time,
        10 if !v1 => T::Dur,
        11 => {
            let c: Vec<usize> = all.iter().enumerate().filter(|(_, x)| (x.v1 || !v1) && (x.v2 || !v2) && x.depth < 4).map(|(i, _)| i).collect();
            if c.is_empty() {
                T::Bool
            } else {
                T::Struct(*s.pick(&c))
            }
        }
        _ => T::Num("u64"),
    }
}
fn depth(t: &T, all: &[S]) -> usize {
    match t {
        T::Vec(t) | T::Opt(t) => depth(t, all),
        T::Struct(i) => 1 + all[*i].depth,
        _ => 0,
    }
}
const NAMES: [&str; 16] = ["a", "w", "r", "enc", "len", "buf", "value", "r#type", "name", "ok", "data", "_x", "e", "r#match", "n", "x1"];
fn gen_s(s: &mut Src, all: &[S]) -> S {
    let shape = s.weighted(&[6, 5, 1]);
    let (v1, v2) = *s.pick(&[(true, true), (true, true), (false, true), (true, false)]);
    let n = match (shape, s.weighted(&[2, 6, 3, 1])) {
        (2, _) => 0,
        (_, 0) => s.below(2),
        (_, 1) => 2 + s.below(4),
        (_, 2) => 6 + s.below(6),
        _ => 12 + s.below(14),
    };
    let mut fields = Vec::new();
    for i in 0..n {
        let t = gen_t(s, v1, v2, all, 2);
        let vis = match shape {
            // the v2 macros document public fields only
            0 if v2 => "pub ",
            _ => s.pick(&["pub ", "", "pub(crate) "]),
        };
        let base = *s.pick(&NAMES);
        let name = if fields.iter().any(|(_, n, _): &(String, String, T)| n == base) { format!("{}{i}", base.trim_start_matches("r#")) } else { base.to_string() };
        fields.push((vis.to_string(), name, t));
    }
    let depth = fields.iter().map(|(_, _, t)| depth(t, all)).max().unwrap_or(0);
    S { shape, v1, v2, fields, depth }
}
fn ty(t: &T) -> String {
    match t {
        T::U8 => "u8".into(),
        T::Bool => "bool".into(),
        T::Num(n) => n.to_string(),
        T::Str => "String".into(),
        T::Arr(n) => format!("[u8; {n}]"),
        T::Vec(t) => format!("Vec<{}>", ty(t)),
        T::Opt(t) => format!("std::option::Option<{}>", ty(t)),
        T::Lib32(n) => format!("sia::types::{n}"),
        T::Cur => "sia::types::Currency".into(),
        T::Time => "time::OffsetDateTime".into(),
        T::Dur => "time::Duration".into(),
        T::Struct(i) => format!("S{i}"),
    }
}
/// a value: Rust expression, v2 bytes, v1 bytes
fn gen_v(s: &mut Src, t: &T, all: &[S], o2: &mut Vec<u8>, o1: &mut Vec<u8>) -> String {
    fn both(o2: &mut Vec<u8>, o1: &mut Vec<u8>, b: &[u8]) {
        o2.extend_from_slice(b);
        o1.extend_from_slice(b);
    }
    match t {
        T::U8 => {
            let v = s.upto(255) as u8;
            both(o2, o1, &[v]);
            format!("{v}")
        }
        T::Bool => {
            let v = s.bool();
            both(o2, o1, &[v as u8]);
            format!("{v}")
        }
        T::Num(n) => {
            let raw = s.u64();
            // sign extension to 64 bits, as the Go implementation does
            let (txt, v) = match *n {
                "u16" => (format!("{}", raw as u16), raw as u16 as u64),
                "u32" => (format!("{}", raw as u32), raw as u32 as u64),
                "i16" => (format!("{}", raw as i16), raw as i16 as i64 as u64),
                "i32" => (format!("{}", raw as i32), raw as i32 as i64 as u64),
                "i64" => (format!("{}", raw as i64), raw),
                _ => (format!("{raw}"), raw),
            };
            both(o2, o1, &v.to_le_bytes());
            txt.replace("-9223372036854775808", "i64::MIN")
        }
        T::Str => {
            let v = s.text();
            let mut b = Vec::new();
            p64(&mut b, v.len() as u64);
            b.extend_from_slice(v.as_bytes());
            both(o2, o1, &b);
            format!("String::from_utf8(vec!{:?}).unwrap()", v.as_bytes())
        }
        T::Arr(n) => {
            let v = s.fill(*n);
            both(o2, o1, &v);
            format!("{v:?}")
        }
        T::Vec(t) => {
            let n = s.len().min(6);
            both(o2, o1, &(n as u64).to_le_bytes());
            let xs: Vec<String> = (0..n).map(|_| gen_v(s, t, all, o2, o1)).collect();
            format!("vec![{}]", xs.join(", "))
        }
        T::Opt(t) => {
            let some = s.bool();
            both(o2, o1, &[some as u8]);
            if some {
                format!("Some({})", gen_v(s, t, all, o2, o1))
            } else {
                "None".into()
            }
        }
        T::Lib32(n) => {
            let v = s.arr::<32>();
            both(o2, o1, &v);
            format!("sia::types::{n}::new({v:?})")
        }
        T::Cur => {
            let k = s.below(17);
            let mut v = 0u128;
            for b in s.fill(k) {
                v = v << 8 | b as u128;
            }
            o2.extend_from_slice(&v.to_le_bytes());
            let be: Vec<u8> = v.to_be_bytes().into_iter().skip_while(|b| *b == 0).collect();
            p64(o1, be.len() as u64);
            o1.extend_from_slice(&be);
            format!("sia::types::Currency::new({v})")
        }
        T::Time => {
            let v = s.range(-10_000_000_000, 200_000_000_000);
            o2.extend_from_slice(&v.to_le_bytes());
            format!("time::OffsetDateTime::from_unix_timestamp({v}).unwrap()")
        }
        T::Dur => {
            let v = s.u64() >> 1;
            o2.extend_from_slice(&v.to_le_bytes());
            format!("time::Duration::nanoseconds({v})")
        }
        T::Struct(i) => {
            let d = &all[*i];
            let fs: Vec<String> = d
                .fields
                .iter()
                .map(|(_, n, t)| {
                    let v = gen_v(s, t, all, o2, o1);
                    if d.shape == 0 { format!("{n}: {v}") } else { v }
                })
                .collect();
            match d.shape {
                0 => format!("S{i} {{ {} }}", fs.join(", ")),
                1 => format!("S{i}({})", fs.join(", ")),
                _ => format!("S{i}"),
            }
        }
    }
}
const PRELUDE: &str = r#"#![allow(warnings)]
mod coverage_stubs {
    macro_rules! stubs { ($($n:ident)*) => { $(#[no_mangle] extern "C" fn $n(_: u64, _: u64) {})* } }
    stubs!(__sanitizer_cov_trace_pc_guard __sanitizer_cov_trace_pc_guard_init __sanitizer_cov_trace_switch
        __sanitizer_cov_trace_cmp1 __sanitizer_cov_trace_cmp2 __sanitizer_cov_trace_cmp4 __sanitizer_cov_trace_cmp8
        __sanitizer_cov_trace_const_cmp1 __sanitizer_cov_trace_const_cmp2 __sanitizer_cov_trace_const_cmp4 __sanitizer_cov_trace_const_cmp8);
}
mod encoding { pub use sia::encoding::*; }
use sia::encoding::*;
use std::io::{Read, Write};
static mut BAD: u32 = 0;
fn fail(what: &str, why: String) { println!("FAIL {what}: {why}"); unsafe { BAD += 1; if BAD > 20 { std::process::exit(1) } } }
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
struct Short(usize);
impl Write for Short {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { if self.0 == 0 { return Err(std::io::ErrorKind::Other.into()) } let n = b.len().min(self.0); self.0 -= n; Ok(n) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
macro_rules! chk {
    ($f:ident, $E:ident, $D:ident, $enc:ident, $dec:ident) => {
        fn $f<T: $E + $D + PartialEq + std::fmt::Debug>(what: &str, v: &T, want: &str) {
            let want = unhex(want);
            let mut got = Vec::new();
            if let Err(e) = v.$enc(&mut got) { return fail(what, format!("{} fails: {e:?}", stringify!($enc))) }
            if got != want { return fail(what, format!("{} of {v:?} writes {} instead of {}", stringify!($enc), hex(&got), hex(&want))) }
            let mut more = want.clone(); more.extend_from_slice(&[1, 0, 0xff]);
            let mut r = &more[..];
            match T::$dec(&mut r) {
                Err(e) => return fail(what, format!("{} fails on {}: {e:?}", stringify!($dec), hex(&want))),
                Ok(x) => {
                    if x != *v { return fail(what, format!("{} of {} gives {x:?} instead of {v:?}", stringify!($dec), hex(&want))) }
                    if r.len() != 3 { return fail(what, format!("{} consumes {} of {} bytes", stringify!($dec), more.len() - r.len(), want.len())) }
                }
            }
            let step = (want.len() / 48).max(1);
            for n in (0..want.len()).step_by(step) {
                if T::$dec(&mut &want[..n]).is_ok() { return fail(what, format!("{} accepts {n} of {} bytes", stringify!($dec), want.len())) }
                if v.$enc(&mut Short(n)).is_ok() { return fail(what, format!("{} reports success on a writer that failed after {n} bytes", stringify!($enc))) }
            }
        }
    };
}
chk!(chk2, SiaEncodable, SiaDecodable, encode, decode);
chk!(chk1, V1SiaEncodable, V1SiaDecodable, encode_v1, decode_v1);
fn lit<T: PartialEq + std::fmt::Debug + AsRef<[u8]>>(what: &str, got: T, parsed: T, bytes: [u8; 32]) {
    if got != parsed { fail(what, format!("the literal is {got:?}, the text parses to {parsed:?}")) }
    if got.as_ref() != &bytes[..] { fail(what, format!("the literal is {got:?}, not the bytes {}", hex(&bytes))) }
}
fn json<T: serde::de::DeserializeOwned>(s: &str) -> T { serde_json::from_str(&format!("\"{s}\"")).expect("run-time parse") }
fn refused<T: std::fmt::Debug>(what: &str, f: impl FnOnce() -> T + std::panic::UnwindSafe) {
    if let Ok(v) = std::panic::catch_unwind(f) { fail(what, format!("accepted as {v:?}")) }
}
"#;
const MACROS: [(&str, &str, &str); 8] = [
    ("address", "sia::types::Address", "sia::types::Address::parse_string(X).expect(\"run-time parse\")"),
    ("hash_256", "sia::types::Hash256", "sia::types::Hash256::parse_string(X).expect(\"run-time parse\")"),
    ("siacoin_id", "sia::types::SiacoinOutputID", "sia::types::SiacoinOutputID::parse_string(X).expect(\"run-time parse\")"),
    ("siafund_id", "sia::types::SiafundOutputID", "sia::types::SiafundOutputID::parse_string(X).expect(\"run-time parse\")"),
    ("contract_id", "sia::types::FileContractID", "sia::types::FileContractID::parse_string(X).expect(\"run-time parse\")"),
    ("transaction_id", "sia::types::TransactionID", "sia::types::TransactionID::parse_string(X).expect(\"run-time parse\")"),
    ("block_id", "sia::types::BlockID", "sia::types::BlockID::parse_string(X).expect(\"run-time parse\")"),
    ("public_key", "sia::signing::PublicKey", "json(X)"),
];
fn literal(s: &mut Src, m: usize) -> (String, [u8; 32]) {
    let b = s.arr::<32>();
    let mut t = match m {
        0 => addr_text(&b),
        _ => hex(&b),
    };
    t = match s.weighted(&[2, 1, 2]) {
        0 => t,
        1 => t.to_uppercase(),
        _ => {
            let mut x = s.upto(u64::MAX);
            t.chars()
                .map(|c| {
                    x = x.rotate_left(1);
                    if x & 1 == 1 { c.to_ascii_uppercase() } else { c }
                })
                .collect()
        }
    };
    if m == 7 {
        t = format!("ed25519:{t}");
    }
    (t, b)
}
fn malform(s: &mut Src, m: usize, t: &str) -> Option<(String, &'static str)> {
    let mut c: Vec<char> = t.chars().collect();
    let n = c.len();
    let digits = if m == 7 { 8 } else { 0 };
    Some(match s.weighted(&[4, 2, 2, 2, 2]) {
        0 => {
            // a non-hex digit in the part that denotes the bytes
            let i = digits + s.below(64);
            c[i] = *s.pick(&['g', 'G', '/', ':', '@', '`', 'x', ' ', '-', '+', 'z', 'Z']);
            (c.into_iter().collect(), "non-hex digit")
        }
        1 => {
            c.truncate(n - 1 - s.below(n - 1));
            (c.into_iter().collect(), "too short")
        }
        2 => {
            for _ in 0..=s.below(3) {
                c.push('0');
            }
            (c.into_iter().collect(), "too long")
        }
        3 => {
            // 64 bytes, but with a two-byte character
            let i = digits + s.below(63);
            c[i] = 'é';
            c.remove(i + 1);
            (c.into_iter().collect(), "non-ASCII character")
        }
        _ => {
            if m != 7 {
                return None;
            }
            let i = s.below(8);
            c[i] = if c[i] == 'x' { 'y' } else { 'x' };
            (c.into_iter().collect(), "wrong prefix")
        }
    })
}

struct Env {
    deps: String,
    libs: Vec<(String, String)>,
    dir: PathBuf,
}
fn give_up(why: &str) -> ! {
    eprintln!("C24 cannot run: {why}");
    std::process::exit(2)
}
fn env() -> &'static Env {
    static E: OnceLock<Env> = OnceLock::new();
    E.get_or_init(|| {
        let exe = std::env::current_exe().unwrap();
        let prof = exe.parent().unwrap();
        let target = prof.parent().unwrap();
        let mut c = Command::new("cargo");
        c.current_dir(env!("CARGO_MANIFEST_DIR")).env("CARGO_TARGET_DIR", target).args(["build", "--offline", "--lib", "--message-format", "json"]);
        if prof.file_name().unwrap() == "release" {
            c.arg("--release");
        } else {
            c.env("RUSTC_WRAPPER", concat!(env!("CARGO_MANIFEST_DIR"), "/../tools/cov-rustc.sh"));
        }
        let o = c.output().unwrap_or_else(|e| give_up(&e.to_string()));
        if !o.status.success() {
            give_up(&String::from_utf8_lossy(&o.stderr));
        }
        let mut libs = BTreeMap::new();
        for l in String::from_utf8_lossy(&o.stdout).lines() {
            let Ok(v) = serde_json::from_str::<serde_json::Value>(l) else { continue };
            if v["reason"] != "compiler-artifact" {
                continue;
            }
            let n = v["target"]["name"].as_str().unwrap_or("").to_string();
            if !["sia", "time", "serde", "serde_json"].contains(&n.as_str()) {
                continue;
            }
            if let Some(f) = v["filenames"].as_array().into_iter().flatten().filter_map(|f| f.as_str()).find(|f| f.ends_with(".rlib")) {
                libs.insert(n, f.to_string());
            }
        }
        if libs.len() != 4 {
            give_up("the compiled libraries were not found");
        }
        let dir = target.join(format!("gen-{}", std::process::id()));
        std::fs::create_dir_all(&dir).unwrap();
        let e = Env { deps: prof.join("deps").to_string_lossy().into(), libs: libs.into_iter().collect(), dir };
        // a program without derives or literals must build and run, or the tool chain is at fault
        let (ok, out) = build_run_in(&e, &format!("{PRELUDE}fn main() {{ std::process::exit(unsafe {{ BAD }} as i32) }}"));
        if !ok {
            give_up(&out);
        }
        e
    })
}
fn build_run_in(e: &Env, src: &str) -> (bool, String) {
    static N: AtomicU64 = AtomicU64::new(0);
    let n = N.fetch_add(1, Ordering::Relaxed);
    let d = e.dir.join(n.to_string());
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(d.join("p.rs"), src).unwrap();
    let mut c = Command::new("rustc");
    c.current_dir(&d).args(["--edition", "2021", "--crate-type", "bin", "-C", "debuginfo=0", "-C", "opt-level=0", "-C", "codegen-units=1", "-A", "warnings", "-L", &format!("dependency={}", e.deps)]);
    for (n, f) in &e.libs {
        c.args(["--extern", &format!("{n}={f}")]);
    }
    let o = c.args(["-o", "p", "p.rs"]).output().unwrap_or_else(|e| give_up(&e.to_string()));
    let r = if !o.status.success() {
        (false, format!("does not compile: {}", String::from_utf8_lossy(&o.stderr).chars().take(1500).collect::<String>()))
    } else {
        let o = Command::new(d.join("p")).current_dir(&d).output().unwrap_or_else(|e| give_up(&e.to_string()));
        let out = String::from_utf8_lossy(&o.stdout).to_string();
        if o.status.success() && !out.contains("FAIL") {
            (true, out)
        } else {
            let err = String::from_utf8_lossy(&o.stderr);
            let first = out.lines().find(|l| l.starts_with("FAIL")).map(|s| s.to_string()).unwrap_or_else(|| format!("{} {}", o.status, err.lines().take(4).collect::<Vec<_>>().join(" / ")));
            (false, first)
        }
    };
    let _ = std::fs::remove_dir_all(&d);
    r
}
pub fn cleanup() {
    if let Ok(exe) = std::env::current_exe() {
        if let Some(t) = exe.parent().and_then(|p| p.parent()) {
            let _ = std::fs::remove_dir_all(t.join(format!("gen-{}", std::process::id())));
        }
    }
}

fn structs(s: &mut Src, cx: &mut Cx) -> R {
    let n = 1 + s.below(24);
    let mut all: Vec<S> = Vec::new();
    for _ in 0..n {
        let d = gen_s(s, &all);
        all.push(d);
    }
    let mut src = String::from(PRELUDE);
    for (i, d) in all.iter().enumerate() {
        let mut der = vec!["Debug", "PartialEq"];
        if d.v2 {
            der.extend(["SiaEncode", "SiaDecode"]);
        }
        if d.v1 {
            der.extend(["V1SiaEncode", "V1SiaDecode"]);
        }
        let fs: Vec<String> = d.fields.iter().map(|(vis, n, t)| if d.shape == 0 { format!("/// field\n    {vis}{n}: {}", ty(t)) } else { format!("{vis}{}", ty(t)) }).collect();
        let body = match d.shape {
            0 => format!(" {{ {} }}", fs.join(", ")),
            1 => format!("({});", fs.join(", ")),
            _ => ";".into(),
        };
        src += &format!("#[derive({})]\npub struct S{i}{body}\n", der.join(", "));
    }
    let mut main = String::new();
    for (i, d) in all.iter().enumerate() {
        main += &format!("fn t{i}() {{\n");
        for k in 0..4 {
            s.budget = 40;
            let (mut o2, mut o1) = (Vec::new(), Vec::new());
            let e = gen_v(s, &T::Struct(i), &all, &mut o2, &mut o1);
            main += &format!("  let v = {e};\n");
            if d.v2 {
                main += &format!("  chk2(\"S{i} value {k}\", &v, \"{}\");\n", hex(&o2));
                cx.extra_evals += 1;
            }
            if d.v1 {
                main += &format!("  chk1(\"S{i} value {k}\", &v, \"{}\");\n", hex(&o1));
                cx.extra_evals += 1;
            }
        }
        main += "}\n";
        cx.label(["named struct", "tuple struct", "unit struct"][d.shape]);
        cx.label_if(d.fields.len() >= 12, "12 or more fields");
        cx.label_if(d.depth > 0, "nested");
    }
    src += &main;
    src += "fn main() {\n";
    for i in 0..n {
        src += &format!("  t{i}();\n");
    }
    src += "  std::process::exit(if unsafe { BAD } > 0 { 1 } else { 0 })\n}\n";
    cx.nt_if(all.iter().any(|d| d.fields.len() > 1));
    cx.sample(|| src[PRELUDE.len()..].to_string());
    let (ok, out) = build_run_in(env(), &src);
    if ok {
        Ok(())
    } else {
        // name the structs, so that the report can be read without re-running it
        Err(format!("{out}\n-- program --\n{}", src[PRELUDE.len()..].chars().take(3000).collect::<String>()))
    }
}
fn literals(s: &mut Src, cx: &mut Cx) -> R {
    let n = 1 + s.below(40);
    let mut consts = String::new();
    let mut main = String::from("fn main() {\n  std::panic::set_hook(Box::new(|_| ()));\n");
    for i in 0..n {
        let m = s.below(8);
        let (name, tyn, parse) = MACROS[m];
        let (t, b) = literal(s, m);
        let p = parse.replace('X', &format!("\"{t}\""));
        consts += &format!("const L{i}: {tyn} = sia::{name}!(\"{t}\");\n");
        main += &format!("  lit(\"{name}!({t}) in a constant\", L{i}, {p}, {b:?});\n  lit(\"{name}!({t})\", sia::{name}!(\"{t}\"), {p}, {b:?});\n");
        cx.extra_evals += 2;
        cx.label(name);
        if let Some((bad, why)) = malform(s, m, &t) {
            main += &format!("  refused(\"{name}!({}) with {why}\", || sia::{name}!({bad:?}));\n", bad.replace('"', "'").replace('{', "("));
            cx.extra_evals += 1;
            cx.label(why);
        }
    }
    main += "  std::process::exit(if unsafe { BAD } > 0 { 1 } else { 0 })\n}\n";
    cx.nt();
    let src = format!("{PRELUDE}{consts}{main}");
    cx.sample(|| consts.clone());
    let (ok, out) = build_run_in(env(), &src);
    if ok {
        Ok(())
    } else {
        Err(format!("{out}\n-- program --\n{}", src[PRELUDE.len()..].chars().take(3000).collect::<String>()))
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C24",
        rule: "each case is a generated Rust program: up to 24 struct definitions (named, tuple or unit; fields of integer, bool, string, byte-array, list, option, library and earlier generated types, in any order, number and nesting) with four values each and the bytes a reference encoder expects, or up to 40 literals of the eight literal macros with malformed variants; it is compiled with rustc against the current tree and run. Evaluations count programs and the values and literals in them. Non-trivial = a program with a struct of at least two fields, or with literals",
        assumptions: &["rustc compiles correctly; a control program without derives or literals must build and run first, otherwise the check reports an error, not a violation"],
        subs: vec![sub("derived codecs", 64, 1500, structs).unguided(), sub("literal macros", 24, 400, literals).unguided()],
    }]
}
