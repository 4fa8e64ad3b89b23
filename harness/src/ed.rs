//! Reference Ed25519 (RFC 8032) over big integers, for the signature oracle.
use num_bigint::BigUint as B;
use num_traits::{One, Zero};
use sha2::{Digest, Sha512};
use std::sync::LazyLock;

pub struct C {
    pub p: B,
    pub l: B,
    d: B,
    sqrtm1: B,
    base: Pt,
}
/// extended coordinates
#[derive(Clone)]
pub struct Pt {
    x: B,
    y: B,
    z: B,
    t: B,
}
fn dec(s: &str) -> B {
    s.parse().unwrap()
}
pub static K: LazyLock<C> = LazyLock::new(|| {
    let p = (B::one() << 255u32) - 19u32;
    let l = (B::one() << 252u32) + dec("27742317777372353535851937790883648493");
    let inv = B::from(121666u32).modpow(&(&p - 2u32), &p);
    let d = (&p - B::from(121665u32)) * inv % &p;
    let sqrtm1 = B::from(2u32).modpow(&((&p - 1u32) / 4u32), &p);
    let by = B::from(4u32) * B::from(5u32).modpow(&(&p - 2u32), &p) % &p;
    let mut c = C { p, l, d, sqrtm1, base: ident() };
    let bx = recover_x(&c, &by, false).unwrap();
    c.base = Pt { t: &bx * &by % &c.p, x: bx, y: by, z: B::one() };
    c
});
fn ident() -> Pt {
    Pt { x: B::zero(), y: B::one(), z: B::one(), t: B::zero() }
}
fn recover_x(c: &C, y: &B, sign: bool) -> Option<B> {
    let p = &c.p;
    let y2 = y * y % p;
    let u = (&y2 + p - B::one()) % p;
    let v = (&c.d * &y2 + B::one()) % p;
    let x2 = u * v.modpow(&(p - 2u32), p) % p;
    if x2.is_zero() {
        return if sign { None } else { Some(B::zero()) };
    }
    let mut x = x2.modpow(&((p + 3u32) / 8u32), p);
    if &x * &x % p != x2 {
        x = x * &c.sqrtm1 % p;
    }
    if &x * &x % p != x2 {
        return None;
    }
    if x.bit(0) != sign {
        x = p - x;
    }
    Some(x)
}
fn sub(a: &B, b: &B, p: &B) -> B {
    (a + p - b) % p
}
pub fn add(a: &Pt, b: &Pt) -> Pt {
    let (p, d) = (&K.p, &K.d);
    let aa = sub(&a.y, &a.x, p) * sub(&b.y, &b.x, p) % p;
    let bb = (&a.y + &a.x) * (&b.y + &b.x) % p;
    let cc = &a.t * 2u32 * d % p * &b.t % p;
    let dd = &a.z * 2u32 * &b.z % p;
    let (e, f, g, h) = (sub(&bb, &aa, p), sub(&dd, &cc, p), (&dd + &cc) % p, (&bb + &aa) % p);
    Pt { x: &e * &f % p, y: &g * &h % p, t: &e * &h % p, z: &f * &g % p }
}
pub fn neg(a: &Pt) -> Pt {
    let p = &K.p;
    Pt { x: sub(&B::zero(), &a.x, p), y: a.y.clone(), z: a.z.clone(), t: sub(&B::zero(), &a.t, p) }
}
pub fn mul(k: &B, a: &Pt) -> Pt {
    let mut r = ident();
    for i in (0..k.bits()).rev() {
        r = add(&r, &r);
        if k.bit(i) {
            r = add(&r, a);
        }
    }
    r
}
pub fn same(a: &Pt, b: &Pt) -> bool {
    let p = &K.p;
    &a.x * &b.z % p == &b.x * &a.z % p && &a.y * &b.z % p == &b.y * &a.z % p
}
pub fn base() -> Pt {
    K.base.clone()
}
pub fn comp(a: &Pt) -> [u8; 32] {
    let p = &K.p;
    let zi = a.z.modpow(&(p - 2u32), p);
    let (x, y) = (&a.x * &zi % p, &a.y * &zi % p);
    let mut o = le32(&y);
    o[31] |= (x.bit(0) as u8) << 7;
    o
}
pub fn le32(v: &B) -> [u8; 32] {
    let mut o = [0u8; 32];
    let b = v.to_bytes_le();
    o[..b.len()].copy_from_slice(&b);
    o
}
pub enum Dec {
    /// no point has this encoding, however lenient the decoder is
    Bad,
    Ok(Pt),
    /// a point under a lenient decoder only (y not reduced, or a signed zero x)
    NonCanonical,
}
pub fn decomp(b: &[u8; 32]) -> Dec {
    let mut c = *b;
    let sign = c[31] >> 7 == 1;
    c[31] &= 0x7f;
    let y = B::from_bytes_le(&c);
    let canon = y < K.p;
    let y = y % &K.p;
    match recover_x(&K, &y, sign) {
        Some(x) if canon => Dec::Ok(Pt { t: &x * &y % &K.p, x, y, z: B::one() }),
        Some(_) => Dec::NonCanonical,
        None if recover_x(&K, &y, false).is_some_and(|x| x.is_zero()) => Dec::NonCanonical,
        None => Dec::Bad,
    }
}
pub fn expand(seed: &[u8; 32]) -> (B, [u8; 32]) {
    let h = Sha512::digest(seed);
    let mut a: [u8; 32] = h[..32].try_into().unwrap();
    a[0] &= 248;
    a[31] &= 127;
    a[31] |= 64;
    (B::from_bytes_le(&a), h[32..].try_into().unwrap())
}
pub fn public(seed: &[u8; 32]) -> [u8; 32] {
    comp(&mul(&expand(seed).0, &base()))
}
pub fn hram(r: &[u8], a: &[u8], m: &[u8]) -> B {
    let mut h = Sha512::new();
    h.update(r);
    h.update(a);
    h.update(m);
    B::from_bytes_le(&h.finalize()) % &K.l
}
pub fn sign(seed: &[u8; 32], msg: &[u8]) -> [u8; 64] {
    let (a, pre) = expand(seed);
    let pk = comp(&mul(&a, &base()));
    let mut h = Sha512::new();
    h.update(pre);
    h.update(msg);
    let r = B::from_bytes_le(&h.finalize()) % &K.l;
    let rb = comp(&mul(&r, &base()));
    let s = (r + hram(&rb, &pk, msg) * a) % &K.l;
    let mut o = [0u8; 64];
    o[..32].copy_from_slice(&rb);
    o[32..].copy_from_slice(&le32(&s));
    o
}
/// None where RFC 8032 leaves implementations a choice (non-canonical point encodings, and
/// signatures on which the cofactored and the cofactorless equations disagree)
pub fn verify(pk: &[u8; 32], msg: &[u8], sig: &[u8; 64]) -> Option<bool> {
    let rb: [u8; 32] = sig[..32].try_into().unwrap();
    let s = B::from_bytes_le(&sig[32..]);
    if s >= K.l {
        return Some(false);
    }
    let a = match decomp(pk) {
        Dec::Bad => return Some(false),
        Dec::NonCanonical => return None,
        Dec::Ok(a) => a,
    };
    let r = match decomp(&rb) {
        Dec::Bad => return Some(false),
        Dec::NonCanonical => return None,
        Dec::Ok(r) => r,
    };
    // sB - kA - R
    let k = hram(&rb, pk, msg);
    let diff = add(&mul(&s, &base()), &neg(&add(&mul(&k, &a), &r)));
    if same(&diff, &ident()) {
        return Some(true);
    }
    let eight = mul(&B::from(8u32), &diff);
    if same(&eight, &ident()) {
        None
    } else {
        Some(false)
    }
}
