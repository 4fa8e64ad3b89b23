//! C15 signatures, C16 seeds and recovery phrases, C23 wiping of secrets
use crate::alloc::freed_containing;
use crate::ed;
use crate::engine::*;
use crate::model::*;
use crate::refhash::*;
use num_bigint::BigUint;
use sha2::{Digest, Sha256};
use sia::seed::Seed;
use sia::signing::{PrivateKey, PublicKey, Signature};
use sia::types as st;

fn q<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    quiet(f).map_err(|p| format!("{what} panicked: {p}"))
}
fn h256(b: &[u8; 32]) -> st::Hash256 {
    H256(*b).to()
}

// ------------------------------------------------------------------ C15
fn verify(pk: &[u8; 32], h: &[u8; 32], sig: &[u8; 64]) -> Result<bool, String> {
    q("verify", || PublicKey::new(*pk).verify(&h256(h), &Signature::new(*sig)))
}
fn sig_of(k: &PrivateKey, h: &[u8; 32]) -> Result<[u8; 64], String> {
    Ok(*q("sign_hash", || k.sign_hash(&h256(h)))?.as_ref())
}
fn pk_of(k: &PrivateKey) -> [u8; 32] {
    k.public_key().as_ref().try_into().unwrap()
}
/// RFC 8032 section 7.1: the vectors whose message a 32-byte hash cannot be are checked in the
/// self-test; what is used here is the derivation of the public key
const RFC: [(&str, &str); 5] = [
    ("9d61b19deffd5a60ba844af492ec2cc44449c5697b326919703bac031cae7f60", "d75a980182b10ab7d54bfed3c964073a0ee172f3daa62325af021a68f707511a"),
    ("4ccd089b28ff96da9db6c346ec114e0f5b8a319f35aba624da8cf6ed4fb8a6fb", "3d4017c3e843895a92b70aa74d1b7ebc9c982ccf2ec4968cc0cd55f12af4660c"),
    ("c5aa8df43f9f837bedb7442f31dcb7b166d38535076f094b85ce3a2e0b4458f7", "fc51cd8e6218a1a38da47ed00230f0580816ed13ba3303ac5deb911548908025"),
    ("f5e5767cf153319517630f226876b86c8160cc583bc013744c6bf255f5cc0ee5", "278117fc144c72340f67d0f2316e8386ceffbf2b2428c9c51fef7c597f1d426e"),
    ("833fe62409237b9d62ec77587520911e9a759cec1d19755b7da901b96dca3d42", "ec172b93ad5e563bf4932c70e1245034c35467ef2efd4d64ebf819683467e2bf"),
];
fn seed32(s: &mut Src) -> [u8; 32] {
    if s.one_in(12) {
        unhex(s.pick(&RFC).0).unwrap().try_into().unwrap()
    } else {
        s.arr()
    }
}
fn add_l(sig: &[u8; 64], n: u32) -> Option<[u8; 64]> {
    let v = BigUint::from_bytes_le(&sig[32..]) + &ed::K.l * n;
    if v.bits() > 256 {
        return None;
    }
    let mut o = *sig;
    o[32..].copy_from_slice(&ed::le32(&v));
    Some(o)
}
/// small-order points and their non-canonical encodings
fn small_order(s: &mut Src) -> [u8; 32] {
    let h = s.pick(&[
        "0100000000000000000000000000000000000000000000000000000000000000",
        "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
        "0000000000000000000000000000000000000000000000000000000000000000",
        "0000000000000000000000000000000000000000000000000000000000000080",
        "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05",
        "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc85",
        "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a",
        "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac03fa",
        "0100000000000000000000000000000000000000000000000000000000000080",
        "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
        "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
        "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
    ]);
    unhex(h).unwrap().try_into().unwrap()
}
fn c15() -> Prop {
    let subs = vec![
        sub("genuine signatures", 1_500, 150_000, |s, c| {
            let seed = seed32(s);
            let h: [u8; 32] = s.arr();
            c.nt();
            c.sample(|| format!("seed {} hash {}", hex(&seed), hex(&h)));
            let k = q("from_seed", || PrivateKey::from_seed(&seed))?;
            let pk = ed::public(&seed);
            if let Some((_, p)) = RFC.iter().find(|r| r.0 == hex(&seed)) {
                if hex(&pk) != *p {
                    return Err("reference disagrees with RFC 8032".into());
                }
            }
            if pk_of(&k) != pk {
                return Err(format!("public key of seed {} is {}, should be {}", hex(&seed), hex(&pk_of(&k)), hex(&pk)));
            }
            if k.as_bytes() != [seed, pk].concat() {
                return Err(format!("key bytes of seed {} are {}", hex(&seed), hex(k.as_bytes())));
            }
            let want = ed::sign(&seed, &h);
            let forms: Vec<(&str, PrivateKey)> = vec![
                ("from_seed", k.clone()),
                ("the key bytes", PrivateKey::from(<[u8; 64]>::try_from(k.as_bytes()).unwrap())),
                ("a hash", PrivateKey::from(h256(&seed))),
            ];
            for (n, f) in &forms {
                for _ in 0..2 {
                    let got = sig_of(f, &h)?;
                    if got != want {
                        return Err(format!("signature by the key from {n} of {} is {}, should be {}", hex(&h), hex(&got), hex(&want)));
                    }
                }
                if pk_of(f) != pk {
                    return Err(format!("public key of the key from {n} differs"));
                }
            }
            if !verify(&pk, &h, &want)? {
                return Err(format!("genuine signature {} of {} does not verify under {}", hex(&want), hex(&h), hex(&pk)));
            }
            Ok(())
        }),
        // the same, without the slow reference
        sub("sign and verify", 12_000, 1_500_000, |s, c| {
            let seed: [u8; 32] = s.arr();
            let h: [u8; 32] = s.arr();
            c.nt();
            let k = PrivateKey::from_seed(&seed);
            let pk = pk_of(&k);
            let sig = sig_of(&k, &h)?;
            if !verify(&pk, &h, &sig)? {
                return Err("genuine signature does not verify".into());
            }
            let what;
            let ok = match s.weighted(&[4, 6, 3, 3, 2]) {
                0 => {
                    let mut h2 = h;
                    h2[s.below(32)] ^= 1 << s.upto(7);
                    what = "another hash";
                    verify(&pk, &h2, &sig)?
                }
                1 => {
                    let mut g = sig;
                    g[s.below(64)] ^= 1 << s.upto(7);
                    what = "a signature with a flipped bit";
                    verify(&pk, &h, &g)?
                }
                2 => {
                    let n = 1 + s.upto(14) as u32;
                    let Some(g) = add_l(&sig, n) else { return Ok(()) };
                    what = "a signature with non-canonical S";
                    verify(&pk, &h, &g)?
                }
                3 => {
                    let mut o: [u8; 32] = s.arr();
                    if o == seed {
                        o[0] ^= 1;
                    }
                    what = "an unrelated key";
                    verify(&pk_of(&PrivateKey::from_seed(&o)), &h, &sig)?
                }
                _ => {
                    let mut o = pk;
                    o[s.below(32)] ^= 1 << s.upto(7);
                    what = "an altered key";
                    verify(&o, &h, &sig)?
                }
            };
            c.label(what);
            c.sample(|| format!("seed {} hash {}: {what}", hex(&seed), hex(&h)));
            if ok {
                return Err(format!("verification succeeds for {what} (seed {}, hash {})", hex(&seed), hex(&h)));
            }
            Ok(())
        }),
        sub("arbitrary keys and signatures", 2_500, 250_000, |s, c| {
            let h: [u8; 32] = s.arr();
            let mut pk: [u8; 32] = match s.weighted(&[3, 3, 2, 1]) {
                0 => s.arr(),
                1 => small_order(s),
                2 => ed::comp(&ed::mul(&BigUint::from(s.u64()), &ed::base())),
                _ => {
                    let mut b = [0xff; 32];
                    b[0] = 0xe8 + s.upto(23) as u8;
                    b[31] = if s.bool() { 0x7f } else { 0xff };
                    b
                }
            };
            if s.one_in(10) {
                pk[s.below(32)] = s.upto(255) as u8;
            }
            let mut sig = [0u8; 64];
            let kind = s.weighted(&[2, 4, 2, 2]);
            match kind {
                0 => sig = s.arr(),
                1 => {
                    // valid under a small-order key, or by knowledge of the discrete logarithm 0
                    let r = BigUint::from(s.u64());
                    let rp = ed::mul(&r, &ed::base());
                    sig[..32].copy_from_slice(&ed::comp(&rp));
                    sig[32..].copy_from_slice(&ed::le32(&r));
                }
                2 => {
                    sig[..32].copy_from_slice(&small_order(s));
                    if s.bool() {
                        sig[32] = s.upto(3) as u8;
                    }
                }
                _ => {
                    let seed: [u8; 32] = s.arr();
                    pk = ed::public(&seed);
                    sig = ed::sign(&seed, &h);
                    if s.bool() {
                        // R and A keep their discrete logarithms but gain a small-order part
                        if let (ed::Dec::Ok(a), ed::Dec::Ok(t)) = (ed::decomp(&pk), ed::decomp(&small_order(s))) {
                            pk = ed::comp(&ed::add(&a, &t));
                        }
                    }
                }
            }
            if s.one_in(5) {
                if let Some(g) = add_l(&sig, 1 + s.upto(3) as u32) {
                    sig = g
                }
            }
            let want = ed::verify(&pk, &h, &sig);
            c.nt();
            c.label(match want {
                None => "left open by RFC 8032",
                Some(true) => "valid",
                Some(false) => "invalid",
            });
            c.sample(|| format!("key {} hash {} signature {} -> {want:?}", hex(&pk), hex(&h), hex(&sig)));
            let got = verify(&pk, &h, &sig)?;
            match want {
                Some(w) if w != got => Err(format!("verify(key {}, hash {}, signature {}) is {got}, should be {w}", hex(&pk), hex(&h), hex(&sig))),
                _ => Ok(()),
            }
        }),
        sub("arbitrary key bytes never panic", 40_000, 4_000_000, |s, c| {
            let pk: [u8; 32] = if s.one_in(4) { small_order(s) } else { s.arr() };
            let (h, sig): ([u8; 32], [u8; 64]) = (s.arr(), s.arr());
            c.nt();
            c.sample(|| format!("key {}", hex(&pk)));
            let got = verify(&pk, &h, &sig)?;
            c.label_if(!got, "false");
            Ok(())
        }),
    ];
    Prop {
        id: "C15",
        rule: "random and RFC 8032 seeds and random hashes; signatures, key bytes and verification results compared with an independent big-integer Ed25519; altered hash, signature (bit flips, S plus multiples of the group order) and key must fail; arbitrary, small-order, mixed-order and non-canonical keys with crafted signatures must give the RFC's answer where it prescribes one and never panic; non-trivial = every case",
        assumptions: &["where RFC 8032 lets implementations differ (non-canonical point encodings, cofactored against cofactorless equation) only the absence of a panic is asserted", "a random altered signature does not verify by chance"],
        subs,
    }
}

// ------------------------------------------------------------------ C16
/// the English list; its published SHA-256 is checked
fn words() -> &'static [&'static str; 2048] {
    static OK: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    let w = bip39::Language::English.word_list();
    let ok = OK.get_or_init(|| {
        let mut h = Sha256::new();
        for x in w.iter() {
            h.update(x.as_bytes());
            h.update(b"\n");
        }
        hex(&h.finalize()) == "2f5eed53a4727b4bf8880d8f3f199efc90e58503646d9ff8eff3a2ed3b24dbda"
    });
    assert!(*ok, "the BIP-39 word list is not the published one");
    w
}
/// BIP-39 phrase of any entropy
fn phrase(e: &[u8]) -> Vec<&'static str> {
    let cs = Sha256::digest(e);
    let bits: Vec<u8> = e.iter().chain(cs.iter()).flat_map(|b| (0..8).rev().map(move |i| b >> i & 1)).collect();
    let n = e.len() * 8 + e.len() / 4;
    bits[..n].chunks(11).map(|c| words()[c.iter().fold(0usize, |a, b| a << 1 | *b as usize)]).collect()
}
/// the entropy of 12 words with a right checksum
pub fn restore(ws: &[String]) -> Option<[u8; 16]> {
    if ws.len() != 12 {
        return None;
    }
    let mut n = BigUint::default();
    for w in ws {
        let i = words().iter().position(|x| x == w)?;
        n = (n << 11u32) + BigUint::from(i);
    }
    let cs: u8 = (&n % 16u32).try_into().unwrap();
    let mut e = [0u8; 16];
    let b = (n >> 4u32).to_bytes_be();
    e[16 - b.len()..].copy_from_slice(&b);
    (Sha256::digest(e)[0] >> 4 == cs).then_some(e)
}
fn from_mn(p: &str) -> Result<Option<[u8; 16]>, String> {
    Ok(q("from_mnemonic", || Seed::from_mnemonic(p))?.ok().map(|s| s.as_bytes().try_into().unwrap()))
}
fn edit(ws: &mut Vec<String>, s: &mut Src) -> &'static str {
    let n = ws.len();
    let any = |s: &mut Src| words()[s.below(2048)].to_string();
    match s.weighted(&[6, 4, 2, 2, 3, 2, 1]) {
        0 => {
            let i = s.below(n);
            ws[i] = any(s);
            "another word"
        }
        1 => {
            let (i, j) = (s.below(n), s.below(n));
            ws.swap(i, j);
            "swapped words"
        }
        2 => {
            ws.remove(s.below(n));
            "missing word"
        }
        3 => {
            let (i, w) = (s.below(n + 1), any(s));
            ws.insert(i, w);
            "extra word"
        }
        4 => {
            let i = s.below(n);
            let mut cs: Vec<char> = ws[i].chars().collect();
            match s.upto(4) {
                0 => {
                    cs.pop();
                }
                1 => cs.push((b'a' + s.upto(25) as u8) as char),
                2 if !cs.is_empty() => cs[0] = (b'a' + s.upto(25) as u8) as char,
                3 => cs = s.text().chars().filter(|c| !c.is_whitespace()).collect(),
                _ => cs.truncate(4), // BIP-39 words are unique in four letters, but a prefix is not the word
            }
            ws[i] = cs.into_iter().collect();
            "unknown word"
        }
        5 => {
            let i = s.below(n);
            // only the last 4 bits: the checksum alone
            let k = words().iter().position(|x| *x == ws[n - 1]).unwrap_or(0);
            let _ = i;
            ws[n - 1] = words()[k ^ (1 + s.upto(14) as usize)].to_string();
            "wrong checksum"
        }
        _ => {
            let w = ws.clone();
            ws.extend(w);
            "doubled"
        }
    }
}
fn c16() -> Prop {
    let subs = vec![
        sub("phrases", 8_000, 600_000, |s, c| {
            let e: [u8; 16] = s.arr();
            c.nt();
            let want = phrase(&e).join(" ");
            c.sample(|| want.clone());
            let got = q("to_mnemonic", || Seed::new(e).to_mnemonic())?;
            if got != want {
                return Err(format!("phrase of {} is {got:?}, should be {want:?}", hex(&e)));
            }
            match from_mn(&want)? {
                Some(x) if x == e => Ok(()),
                x => Err(format!("{want:?} restores {x:?}, should be {e:?}")),
            }
        }),
        sub("wrong phrases", 12_000, 1_200_000, |s, c| {
            let p = match s.weighted(&[8, 3, 2, 1, 1]) {
                0 => {
                    let mut ws: Vec<String> = phrase(&s.arr::<16>()).iter().map(|w| w.to_string()).collect();
                    c.label(edit(&mut ws, s));
                    if s.one_in(6) {
                        edit(&mut ws, s);
                    }
                    ws.join(" ")
                }
                1 => {
                    // a valid phrase of another standard length
                    c.label("valid phrase of another length");
                    let n = *s.pick(&[20usize, 24, 28, 32]);
                    phrase(&s.fill(n)).join(" ")
                }
                2 => {
                    c.label("random words");
                    let n = s.upto(40) as usize;
                    (0..n).map(|_| words()[s.below(2048)]).collect::<Vec<_>>().join(" ")
                }
                3 => {
                    c.label("empty or tiny");
                    let n = s.upto(3) as usize;
                    vec![words()[0]; n].join(" ")
                }
                _ => {
                    c.label("random text");
                    s.text()
                }
            };
            let ws: Vec<String> = p.split_whitespace().map(|x| x.to_string()).collect();
            let want = restore(&ws);
            c.nt();
            c.label_if(want.is_some(), "still valid");
            c.sample(|| format!("{p:?} -> {want:?}"));
            let got = from_mn(&p)?;
            // only the plain form, one space between words, is the standard phrase
            if want.is_some() && got.is_none() && ws.join(" ") != p {
                return Ok(());
            }
            if got != want {
                return Err(format!("{p:?} restores {got:?}, should be {want:?}"));
            }
            Ok(())
        }),
        sub("derived keys", 1_200, 120_000, |s, c| {
            let e: [u8; 16] = s.arr();
            let i = s.u64();
            c.nt();
            c.label_if(i > u32::MAX as u64, "index above 32 bits");
            c.sample(|| format!("seed {} index {i}", hex(&e)));
            let sk = cat(&[&blake2b(&e), &i.to_le_bytes()]);
            let k = q("private_key", || Seed::new(e).private_key(i))?;
            let want = [sk, ed::public(&sk)].concat();
            if k.as_bytes() != want {
                return Err(format!("key {i} of seed {} is {}, should be {}", hex(&e), hex(k.as_bytes()), hex(&want)));
            }
            Ok(())
        }),
        sub("keys differ", 8_000, 800_000, |s, c| {
            let e: [u8; 16] = s.arr();
            let i = s.u64();
            let mut f = e;
            let mut j = i;
            if s.bool() {
                f[s.below(16)] ^= 1 << s.upto(7);
            }
            if f == e || s.bool() {
                j = i ^ (1 << s.upto(63));
            }
            c.nt();
            c.sample(|| format!("seeds {} {} indices {i} {j}", hex(&e), hex(&f)));
            let (a, b) = (Seed::new(e), Seed::new(f));
            let (k, l) = (q("private_key", || a.private_key(i))?, q("private_key", || b.private_key(j))?);
            if k == l || k.as_bytes()[..32] == l.as_bytes()[..32] || pk_of(&k) == pk_of(&l) {
                return Err(format!("seed {} index {i} and seed {} index {j} give the same key", hex(&e), hex(&f)));
            }
            // through the phrase
            let r = Seed::from_mnemonic(&a.to_mnemonic()).map_err(|_| "phrase rejected")?;
            if r.private_key(i) != k || a.private_key(i) != k {
                return Err("the key is not a function of the phrase and the index".into());
            }
            Ok(())
        }),
    ];
    Prop {
        id: "C16",
        rule: "random and structured 16-byte seeds; phrases and keys compared with an independent BIP-39 (SHA-256 checksum, published word list) and BLAKE2b/Ed25519 derivation at random and boundary indices; corrupted phrases (changed, swapped, missing, extra, unknown words, wrong checksum), valid phrases of the other standard lengths, random words and random text must restore exactly what the reference restores; non-trivial = every case",
        assumptions: &["phrases with other spacing than one space may be accepted or refused", "the word list of the bip39 crate, checked against the published SHA-256 of english.txt"],
        subs,
    }
}

// ------------------------------------------------------------------ C23
fn pat(b: &[u8]) -> [u8; 16] {
    b[..16].try_into().unwrap()
}
#[allow(dead_code)]
enum Held {
    BoxKey(Box<PrivateKey>),
    VecKey(Vec<PrivateKey>),
    OptKey(Box<Option<PrivateKey>>),
    MapKey(std::collections::HashMap<u64, PrivateKey>),
    TreeKey(std::collections::BTreeMap<u64, PrivateKey>),
    ArcKey(std::sync::Arc<PrivateKey>),
    PairKey(Box<(u64, PrivateKey, [u8; 7])>),
    BoxSeed(Box<Seed>),
    VecSeed(Vec<Seed>),
    OptSeed(Box<Option<Seed>>),
    MapSeed(std::collections::HashMap<u64, Seed>),
    RcSeed(std::rc::Rc<Seed>),
    PairSeed(Box<(u8, Seed, PrivateKey)>),
}
use Held::*;
#[inline(never)]
fn gone<T>(v: T) {
    drop(std::hint::black_box(v))
}
/// each kind through a drop of its own, which the optimizer may specialize
fn drop_held(h: Held) {
    match h {
        BoxKey(x) => gone(x),
        VecKey(x) => gone(x),
        OptKey(x) => gone(x),
        MapKey(x) => gone(x),
        TreeKey(x) => gone(x),
        ArcKey(x) => gone(x),
        PairKey(x) => gone(x),
        BoxSeed(x) => gone(x),
        VecSeed(x) => gone(x),
        OptSeed(x) => gone(x),
        MapSeed(x) => gone(x),
        RcSeed(x) => gone(x),
        PairSeed(x) => gone(x),
    }
}
fn c23() -> Prop {
    let subs = vec![
        sub("freed memory", 40_000, 2_500_000, |s, c| {
            // a secret of this case alone: neither chance nor an earlier case put it anywhere
            static CASE: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
            let id = CASE.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            let e = pat(&cat(&[&id.to_le_bytes(), &s.arr::<16>()]));
            // either half of the key's seed
            let half = s.upto(1) as usize * 16;
            let mut sk = [0u8; 32];
            sk[half..half + 16].copy_from_slice(&e);
            sk[16 - half..32 - half].copy_from_slice(&s.arr::<16>());
            let key = PrivateKey::from_seed(&sk);
            if s.bool() {
                // a key that has been used
                std::hint::black_box(key.sign_hash(&h256(&sk)));
            }
            let n = 1 + s.upto(6);
            let extra = s.bool();
            let kind = s.upto(12);
            let h = match kind {
                0 => BoxKey(Box::new(key.clone())),
                1 => VecKey({
                    let mut v = Vec::with_capacity(n as usize + extra as usize * 3);
                    for _ in 0..n {
                        v.push(key.clone())
                    }
                    v
                }),
                2 => OptKey(Box::new(Some(key.clone()))),
                3 => MapKey((0..n).map(|i| (i, key.clone())).collect()),
                4 => TreeKey((0..n).map(|i| (i, key.clone())).collect()),
                5 => ArcKey(std::sync::Arc::new(key.clone())),
                6 => PairKey(Box::new((n, key.clone(), [1; 7]))),
                7 => BoxSeed(Box::new(Seed::new(e))),
                8 => VecSeed({
                    let mut v = Vec::with_capacity(n as usize);
                    for _ in 0..n {
                        v.push(Seed::new(e))
                    }
                    v
                }),
                9 => OptSeed(Box::new(Some(Seed::new(e)))),
                10 => MapSeed((0..n).map(|i| (i, Seed::new(e))).collect()),
                11 => RcSeed(std::rc::Rc::new(Seed::new(e))),
                _ => PairSeed(Box::new((1, Seed::new(e), key.clone()))),
            };
            const NAMES: [&str; 13] = ["box of a key", "vector of keys", "option of a key", "hash map of keys", "tree map of keys", "shared key", "tuple with a key", "box of a seed", "vector of seeds", "option of a seed", "hash map of seeds", "shared seed", "tuple with both"];
            let name = NAMES[kind as usize];
            c.label(name);
            c.nt();
            c.sample(|| format!("{name}, {n} of secret {}", hex(&e)));
            // how it is used before it goes
            let how = s.upto(4);
            let ((), hits, freed) = freed_containing(e, move || {
                match (h, how) {
                    (VecKey(mut v), 0) => {
                        v.truncate(1);
                        v.clear();
                        drop_held(VecKey(v))
                    }
                    (VecKey(v), 1) => {
                        // a clone of the collection
                        drop_held(VecKey(v.clone()));
                        drop_held(VecKey(v))
                    }
                    (BoxKey(k), 1) => {
                        let d = k.clone();
                        drop_held(BoxKey(k));
                        drop_held(BoxKey(d))
                    }
                    (MapKey(mut m), 0) => {
                        m.clear();
                        drop_held(MapKey(m))
                    }
                    (OptKey(mut o), 0) => {
                        *o = None;
                        drop_held(OptKey(o))
                    }
                    (OptSeed(mut o), 0) => {
                        *o = None;
                        drop_held(OptSeed(o))
                    }
                    (BoxKey(mut k), 0) => {
                        // overwritten by another key
                        *k = PrivateKey::from_seed(&[7; 32]);
                        drop_held(BoxKey(k))
                    }
                    (BoxSeed(mut k), 0) => {
                        *k = Seed::new([7; 16]);
                        drop_held(BoxSeed(k))
                    }
                    (h, 2) => {
                        // unwinding
                        let _ = quiet(move || {
                            let _h = h;
                            panic!("unwind");
                        });
                    }
                    (h, _) => drop_held(h),
                }
            });
            if freed == 0 {
                return Err("nothing was freed".into());
            }
            if hits > 0 {
                return Err(format!("{name}: {hits} freed block(s) still contain the secret {}", hex(&e)));
            }
            Ok(())
        }),
        sub("in place", 40_000, 2_500_000, |s, c| {
            use std::mem::{size_of, MaybeUninit};
            let sk: [u8; 32] = s.arr();
            let e: [u8; 16] = s.arr();
            c.nt();
            c.sample(|| format!("{} {}", hex(&sk), hex(&e)));
            /// the bytes of a value before and after it is dropped in place
            #[inline(never)]
            fn images<T>(v: T) -> (Vec<u8>, Vec<u8>) {
                let mut b = Box::new(MaybeUninit::new(v));
                unsafe {
                    let p = std::hint::black_box(b.as_ptr() as *const u8);
                    let read = || (0..size_of::<T>()).map(|i| std::hint::black_box(p).add(i).read_volatile()).collect::<Vec<u8>>();
                    let before = read();
                    std::ptr::drop_in_place(b.as_mut_ptr());
                    (before, read())
                }
            }
            /// two values that differ in every byte of the secret: a byte both still hold was not wiped
            fn wiped<T>(make: impl Fn(&[u8]) -> T, secret: &[u8]) -> Result<(), String> {
                let other: Vec<u8> = secret.iter().map(|b| !b).collect();
                let ((b1, a1), (b2, a2)) = (images(make(secret)), images(make(&other)));
                let n = secret.len();
                let at = |b: &[u8], x: &[u8]| (0..(b.len() + 1).saturating_sub(n)).filter(|i| b[*i..i + n] == *x).collect::<Vec<_>>();
                for i in at(&b1, secret) {
                    if !at(&b2, &other).contains(&i) {
                        continue;
                    }
                    for k in i..i + n {
                        if a1[k] == b1[k] && a2[k] == b2[k] {
                            return Err(format!("byte {} of the secret is still there after the drop: {} in {}", k - i, hex(secret), hex(&a1)));
                        }
                    }
                }
                // wherever it is kept: no 8 bytes of it that could not be zeros
                for (i, k) in a1.windows(8).enumerate() {
                    if secret.windows(8).any(|x| x == k && x.iter().filter(|b| **b != 0).count() > 3) {
                        return Err(format!("byte {i} and on of the dropped value still hold {}", hex(k)));
                    }
                }
                Ok(())
            }
            let key = |b: &[u8]| PrivateKey::from_seed(b.try_into().unwrap());
            let seed = |b: &[u8]| Seed::new(b.try_into().unwrap());
            match s.upto(4) {
                0 => wiped(|b| key(b).clone(), &sk),
                1 => wiped(seed, &e),
                2 => wiped(|b| Some(key(b)), &sk),
                3 => wiped(key, &sk),
                _ => wiped(|b| [seed(b), seed(b), seed(b)], &e),
            }
        }),
    ];
    Prop {
        id: "C23",
        rule: "random secrets held in boxes, vectors, options, maps, shared pointers and tuples, cloned, overwritten, removed, dropped normally or by unwinding; a checking allocator searches every freed block for the secret and the bytes of values dropped in place are read back; run in the debug and in the optimized build; non-trivial = every case",
        assumptions: &["copies the compiler makes when a value is moved, and blocks a collection leaves behind when it grows, are outside the property", "16 bytes of a key's seed, its first or its second half, identify it"],
        subs,
    }
}
pub fn props() -> Vec<Prop> {
    vec![c15(), c16(), c23()]
}
