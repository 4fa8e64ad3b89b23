//! C26 equality, clones and debug output
use crate::engine::*;
use crate::js_types;
use crate::model::*;
use crate::props::codec::{tname, trunc};
use crate::refhash::hex;
use crate::tweak::*;
use std::fmt::Debug;

/// `Clone` where the type has it (resolved per concrete type, so that types may gain or lose it)
pub struct Probe<'a, T>(pub &'a T);
pub trait WithClone<T> {
    fn copy(&self) -> Option<T>;
    fn overwrite(&self, onto: T) -> Option<T>;
}
impl<T: Clone> WithClone<T> for Probe<'_, T> {
    fn copy(&self) -> Option<T> {
        Some(self.0.clone())
    }
    fn overwrite(&self, mut onto: T) -> Option<T> {
        onto.clone_from(self.0);
        Some(onto)
    }
}
pub trait WithoutClone<T> {
    fn copy(&self) -> Option<T> {
        None
    }
    fn overwrite(&self, _: T) -> Option<T> {
        None
    }
}
impl<T> WithoutClone<T> for &Probe<'_, T> {}

fn compare<T: J>(a: &T, v: &T::S, b: &T, w: &T::S, how: &str) -> R
where
    T::S: PartialEq,
{
    let want = a == b;
    let r = quiet(|| (v == w, w == v, v != w, w != v)).map_err(|p| format!("comparing panicked: {p}"))?;
    if r != (want, want, !want, !want) {
        return Err(format!("{how}: a==b, b==a, a!=b, b!=a are {r:?}, the contents {} equal: {} and {}", if want { "are" } else { "are not" }, trunc(format!("{a:?}"), 500), trunc(format!("{b:?}"), 500)));
    }
    Ok(())
}
fn case<T: J>(s: &mut Src, c: &mut Cx, copy: impl Fn(&T::S) -> Option<T::S>, over: impl Fn(&T::S, T::S) -> Option<T::S>) -> R
where
    T::S: PartialEq + Debug,
{
    let a: T = gen_okj(s);
    let v = a.to();
    c.sample(|| trunc(format!("{a:?}"), 400));
    compare(&a, &v, &a, &a.to(), "built twice")?;
    compare(&a, &v, &a, &v, "itself")?;
    let mut other = None;
    for _ in 0..1 + s.upto(2) {
        if let Some((b, at)) = tweak(&a, s) {
            c.nt();
            c.extra_evals += 1;
            compare(&a, &v, &b, &b.to(), &format!("changed at {at}"))?;
            other = Some(b);
        }
    }
    let b: T = gen_okj(s);
    compare(&a, &v, &b, &b.to(), "another")?;
    if let Some(k) = quiet(|| copy(&v)).map_err(|p| format!("clone panicked: {p}"))? {
        c.label("cloned");
        if T::of(&k) != a || k != v {
            return Err(format!("the clone of {} is {} (PartialEq says {})", trunc(format!("{a:?}"), 500), trunc(format!("{:?}", T::of(&k)), 500), k == v));
        }
        let o = other.unwrap_or(b);
        let k = quiet(|| over(&v, o.to())).map_err(|p| format!("clone_from panicked: {p}"))?;
        if let Some(k) = k {
            if T::of(&k) != a {
                return Err(format!("cloning {} over {} gives {}", trunc(format!("{a:?}"), 400), trunc(format!("{o:?}"), 400), trunc(format!("{:?}", T::of(&k)), 400)));
            }
        }
    }
    if T::of(&v) != a {
        return Err(format!("comparing or cloning changed {} to {}", trunc(format!("{a:?}"), 500), trunc(format!("{:?}", T::of(&v)), 500)));
    }
    if s.one_in(4) {
        quiet(|| format!("{v:?} {v:#?}").len()).map_err(|p| format!("rendering {} for debugging panicked: {p}", trunc(format!("{a:?}"), 500)))?;
    }
    Ok(())
}
fn weight(n: &str) -> (u64, u64) {
    match n {
        "Tx2" | "Tx1" | "Blk" | "Pol" | "SatPol" | "Res" | "St" | "ScIn2" | "SfIn2" | "TxSig" | "Cs" | "Net" => (2000, 200_000),
        _ => (1000, 60_000),
    }
}
macro_rules! all {
    ($($t:ty),*) => { vec![$({
        let n = tname::<$t>();
        let (q, t) = weight(&n);
        sub(n, q, t, |s: &mut Src, c: &mut Cx| {
            case::<$t>(s, c, |v| (&Probe(v)).copy(), |v, o| (&Probe(v)).overwrite(o))
        })
    }),*] };
}
fn key_case(s: &mut Src, c: &mut Cx) -> R {
    use sia::signing::PrivateKey;
    let mut a = [0u8; 64];
    a.copy_from_slice(&s.fill(64));
    let mut b = a;
    match s.upto(3) {
        0 => b[s.below(64)] ^= 1 << s.upto(7),
        1 | 2 => b.copy_from_slice(&twice(&a, s)),
        _ => b[s.below(64)] = s.upto(255) as u8,
    }
    c.sample(|| format!("key {}, other {}", hex(&a), hex(&b)));
    let (x, y) = (PrivateKey::from(a), PrivateKey::from(b));
    if a != b {
        c.nt();
    }
    let r = quiet(|| (x == y, y == x, x != y, x == PrivateKey::from(a))).map_err(|p| format!("comparing panicked: {p}"))?;
    if r != (a == b, a == b, a != b, true) {
        return Err(format!("a==b, b==a, a!=b, a==a are {r:?} for the keys {} and {}", hex(&a), hex(&b)));
    }
    let k = x.clone();
    let mut z = y.clone();
    z.clone_from(&x);
    drop(y);
    if k.as_bytes() != a || z.as_bytes() != a || x.as_bytes() != a || k != x {
        return Err(format!("cloning the key {} gives {} and {}, and leaves {}", hex(&a), hex(k.as_bytes()), hex(z.as_bytes()), hex(x.as_bytes())));
    }
    drop(k);
    if x.as_bytes() != a || z.as_bytes() != a {
        return Err("dropping one clone changes another".into());
    }
    quiet(|| format!("{x:?}").len()).map_err(|p| format!("rendering a key panicked: {p}"))?;
    Ok(())
}
pub fn props() -> Vec<Prop> {
    let mut subs: Vec<Sub> = js_types!(all);
    subs.push(sub("keys", 3000, 300_000, key_case));
    vec![Prop {
        id: "C26",
        rule: "values of every public data type, compared with themselves, a second copy built from the same contents, up to three copies with one edit anywhere in them, and an independent value; cloned (also over another value) where the type can be; non-trivial = compared with an edited copy",
        assumptions: &["contents are what the public fields and conversions show"],
        subs,
    }]
}
