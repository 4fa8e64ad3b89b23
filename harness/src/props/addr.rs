//! C08 unlock-conditions addresses, C09 spend-policy addresses
use super::codec::trunc;
use crate::engine::*;
use crate::model::*;
use crate::refhash::hex;
use crate::tweak::*;
use sia::types::v1 as s1;
use sia::types::v2 as s2;

fn gen_key(s: &mut Src) -> UKey {
    match s.weighted(&[4, 1, 2]) {
        0 => UKey { algorithm: Spec(spec("ed25519")), key: Blob(s.arr::<32>().to_vec()) },
        1 => UKey::gen(s),
        // few distinct keys, so that equal neighbours and swaps occur
        _ => UKey { algorithm: Spec(spec("ed25519")), key: Blob(vec![s.upto(2) as u8; 32]) },
    }
}
fn gen_uc(s: &mut Src) -> UC {
    let n = match s.weighted(&[2, 10, 6, 3]) {
        0 => 0,
        1 => 1 + s.upto(7) as usize,
        2 => 8 + s.upto(62) as usize,
        _ => {
            let b = 1usize << (1 + s.upto(7));
            (b + s.upto(4) as usize).saturating_sub(4)
        }
    };
    UC { timelock: s.u64(), public_keys: (0..n).map(|_| gen_key(s)).collect(), signatures_required: s.u64() }
}
fn lib_addr(u: &UC) -> Result<[u8; 32], String> {
    let a = quiet(|| u.to().address()).map_err(|p| format!("address() panicked: {p}"))?;
    Ok(Addr::of(&a).0)
}
fn uc_conform(u: &UC) -> R {
    let got = lib_addr(u)?;
    let want = uc_address(u);
    if got != want {
        return Err(format!("address of conditions with {} keys is {}, the Merkle root is {}", u.public_keys.len(), hex(&got), hex(&want)));
    }
    #[allow(deprecated)]
    let p = quiet(|| s2::SpendPolicy::UnlockConditions(u.to()).address()).map_err(|p| format!("policy address panicked: {p}"))?;
    if Addr::of(&p).0 != want {
        return Err(format!("unlock-conditions policy has address {p}, the conditions {}", hex(&want)));
    }
    Ok(())
}
fn c08() -> Prop {
    let subs = vec![
        sub("merkle root", 12_000, 600_000, |s, c| {
            let u = gen_uc(s);
            let n = u.public_keys.len();
            c.nt_if(n >= 1);
            c.label(match n {
                0 => "0 keys",
                1 => "1 key",
                2..=5 => "2-5 keys",
                6..=30 => "6-30 keys",
                _ => "31+ keys",
            });
            c.label_if((n + 2).is_power_of_two(), "perfect tree");
            c.sample(|| trunc(format!("{u:?}"), 500));
            uc_conform(&u)
        }),
        sub("many keys", 60, 2_000, |s, c| {
            let n = match s.upto(2) {
                0 => 200 + s.upto(200) as usize,
                1 => (1usize << (8 + s.upto(3))) + s.upto(4) as usize - 3,
                _ => 1000 + s.upto(2000) as usize,
            };
            let b: [u8; 24] = s.arr();
            let u = UC {
                timelock: s.u64(),
                public_keys: (0..n)
                    .map(|i| UKey { algorithm: Spec(spec("ed25519")), key: Blob([&(i as u64).to_le_bytes()[..], &b[..]].concat()) })
                    .collect(),
                signatures_required: s.u64(),
            };
            c.nt();
            c.sample(|| format!("{n} keys"));
            uc_conform(&u)
        }),
        sub("injective", 10_000, 500_000, |s, c| {
            let mut u = gen_uc(s);
            u.public_keys.truncate(40);
            let how;
            let v = match s.upto(5) {
                0 if u.public_keys.len() >= 2 => {
                    how = "keys swapped";
                    let mut v = u.clone();
                    let i = s.below(v.public_keys.len());
                    let j = s.below(v.public_keys.len());
                    v.public_keys.swap(i, j);
                    v
                }
                1 => {
                    how = "timelock and count exchanged";
                    let mut v = u.clone();
                    std::mem::swap(&mut v.timelock, &mut v.signatures_required);
                    v
                }
                2 if !u.public_keys.is_empty() => {
                    how = "last key repeated";
                    let mut v = u.clone();
                    v.public_keys.push(u.public_keys.last().unwrap().clone());
                    v
                }
                _ => {
                    how = "one change";
                    if !u.okj() {
                        u.public_keys.retain(|k| k.okj());
                    }
                    match tweak(&u, s) {
                        Some((v, _)) => v,
                        None => return Ok(()),
                    }
                }
            };
            c.label(how);
            let (a, b) = (lib_addr(&u)?, lib_addr(&v)?);
            c.nt_if(u != v);
            c.sample(|| trunc(format!("{how}: {u:?} / {v:?}"), 600));
            match (u == v, a == b) {
                (false, true) => Err(format!("{how}: different conditions share address {}", hex(&a))),
                (true, false) => Err("equal conditions have different addresses".into()),
                _ => Ok(()),
            }
        }),
        sub("standard conditions", 2_000, 100_000, |s, c| {
            let k = Pk::gen(s);
            c.nt();
            c.sample(|| hex(&k.0));
            let u = s1::UnlockConditions::standard_unlock_conditions(k.to());
            let m = UC { timelock: 0, public_keys: vec![UKey { algorithm: Spec(spec("ed25519")), key: Blob(k.0.to_vec()) }], signatures_required: 1 };
            if UC::of(&u) != m {
                return Err(format!("standard conditions of {} are {u:?}", hex(&k.0)));
            }
            uc_conform(&m)
        }),
        sub("constructor", 2_000, 100_000, |s, c| {
            let mut u = gen_uc(s);
            u.public_keys.truncate(6);
            c.nt_if(!u.public_keys.is_empty());
            c.sample(|| trunc(format!("{u:?}"), 300));
            let b = s1::UnlockConditions::new(u.timelock, u.public_keys.iter().map(|k| k.to()).collect(), u.signatures_required);
            if UC::of(&b) != u {
                return Err(format!("conditions made of {u:?} are {b:?}"));
            }
            let a = quiet(|| b.address()).map_err(|p| format!("address() panicked: {p}"))?;
            if Addr::of(&a).0 != uc_address(&u) {
                return Err(format!("constructed conditions {u:?} have address {a}"));
            }
            // an Ed25519 key as one of several
            let k = Pk::gen(s);
            let l: s1::UnlockKey = k.to().into();
            if UKey::of(&l) != (UKey { algorithm: Spec(spec("ed25519")), key: Blob(k.0.to_vec()) }) {
                return Err(format!("unlock key of {} is {l:?}", hex(&k.0)));
            }
            Ok(())
        }),
    ];
    Prop {
        id: "C08",
        rule: "unlock conditions with 0 to 3000 keys (counts concentrated around powers of two) of any algorithm and key bytes, compared with an independent Merkle root over independently hashed leaves; pairs differing by one edit, key swap, repetition or exchange; non-trivial = at least one key, or a pair that differs",
        assumptions: &["BLAKE2b-256 has no collisions among the generated values"],
        subs,
    }
}

fn pol_addr(p: &Pol) -> Result<[u8; 32], String> {
    let sp = p.to();
    let a = quiet(|| sp.address()).map_err(|e| format!("address() panicked: {e}"))?;
    let b: &[u8] = a.as_ref();
    b.try_into().map_err(|_| format!("{}-byte address", b.len()))
}
fn gen_pol(s: &mut Src) -> Pol {
    match s.weighted(&[4, 10, 2, 1]) {
        0 => Pol::leaf(s),
        1 => {
            let n = match s.upto(3) {
                0 => s.upto(255) as u8,
                _ => s.upto(4) as u8,
            };
            let k = s.upto(5) as usize;
            Pol::Thresh(n, (0..k).map(|_| Pol::tree(s, 4)).collect())
        }
        2 => {
            // a long chain
            let mut p = Pol::leaf(s);
            for _ in 0..s.upto(30) {
                let mut v = vec![p];
                if s.bool() {
                    let l = Pol::leaf(s);
                    let i = s.below(2);
                    v.insert(i, l);
                }
                p = Pol::Thresh(s.upto(3) as u8, v);
            }
            p
        }
        _ => {
            let k = *s.pick(&[17usize, 64, 127, 128, 200, 254, 255]);
            Pol::wide(s, k)
        }
    }
}
fn same_form(a: &Pol, b: &Pol) -> bool {
    // equal up to opaque substitution
    match (a, b) {
        (Pol::Thresh(n, v), Pol::Thresh(m, w)) => n == m && v.len() == w.len() && v.iter().zip(w).all(|(x, y)| same_form(x, y)),
        (Pol::Opaque(x), y) => x.0 == y.address(),
        (x, Pol::Opaque(y)) => y.0 == x.address(),
        _ => a == b,
    }
}
/// replaces random sub-policies by the opaque policy of the address the library gives them
fn opacify(p: &s2::SpendPolicy, s: &mut Src, root: bool, n: &mut usize) -> Result<s2::SpendPolicy, String> {
    if !root && s.one_in(3) {
        *n += 1;
        let a = quiet(|| p.address()).map_err(|e| format!("address() panicked: {e}"))?;
        return Ok(s2::SpendPolicy::Opaque(a));
    }
    Ok(match p {
        s2::SpendPolicy::Threshold(k, v) => s2::SpendPolicy::Threshold(*k, v.iter().map(|x| opacify(x, s, false, n)).collect::<Result<_, _>>()?),
        _ => Pol::of(p).to(),
    })
}
fn edit_pol(p: &mut Pol, s: &mut Src) -> &'static str {
    match p {
        Pol::Thresh(n, v) => match s.upto(6) {
            0 => {
                *n = n.wrapping_add(1 + s.upto(254) as u8);
                "threshold"
            }
            1 if v.len() >= 2 => {
                let i = s.below(v.len());
                let j = s.below(v.len());
                v.swap(i, j);
                "order"
            }
            2 if !v.is_empty() => {
                let i = s.below(v.len());
                v.remove(i);
                "removed"
            }
            3 if v.len() < 255 => {
                let i = s.below(v.len() + 1);
                v.insert(i, Pol::leaf(s));
                "added"
            }
            _ if !v.is_empty() => {
                let i = s.below(v.len());
                edit_pol(&mut v[i], s)
            }
            _ => {
                *n ^= 1;
                "threshold"
            }
        },
        Pol::Above(h) => {
            *h ^= 1 << s.upto(63);
            "leaf"
        }
        Pol::After(t) => {
            *t = Ts::gen(s);
            "leaf"
        }
        Pol::Pk(Pk(b)) | Pol::Hash(H256(b)) | Pol::Opaque(Addr(b)) if !s.one_in(4) => {
            let i = s.below(32);
            b[i] ^= 1 << s.upto(7);
            "leaf"
        }
        // same 32 bytes under another kind
        Pol::Pk(Pk(b)) => {
            *p = Pol::Hash(H256(*b));
            "kind"
        }
        Pol::Hash(H256(b)) => {
            *p = Pol::Pk(Pk(*b));
            "kind"
        }
        Pol::Opaque(Addr(b)) => {
            *p = Pol::Hash(H256(*b));
            "kind"
        }
        Pol::Uc(u) => {
            u.timelock ^= 1 << s.upto(63);
            "leaf"
        }
    }
}
fn c09() -> Prop {
    let subs = vec![
        sub("address", 60_000, 2_000_000, |s, c| {
            let p = gen_pol(s);
            c.nt_if(p.size() > 1);
            c.label(match &p {
                Pol::Thresh(..) => "threshold",
                Pol::Opaque(_) => "opaque",
                Pol::Uc(_) => "unlock conditions",
                Pol::Above(_) => "above",
                Pol::After(_) => "after",
                Pol::Pk(_) => "public key",
                Pol::Hash(_) => "hash",
            });
            c.label_if(p.depth() >= 4, "depth 4 or more");
            c.label_if(p.size() > 100, "over 100 nodes");
            c.sample(|| trunc(format!("{p:?}"), 600));
            let got = pol_addr(&p)?;
            let want = p.address();
            if got != want {
                return Err(format!("address of {} is {}, should be {}", trunc(format!("{p:?}"), 600), hex(&got), hex(&want)));
            }
            Ok(())
        }),
        sub("opaque substitution", 40_000, 1_500_000, |s, c| {
            let p = gen_pol(s);
            let a = pol_addr(&p)?;
            let mut n = 0;
            let q = opacify(&p.to(), s, true, &mut n)?;
            c.nt_if(n > 0);
            c.label_if(n >= 3, "3 or more substitutions");
            c.sample(|| trunc(format!("{q:?}"), 600));
            let b = quiet(|| q.address()).map_err(|e| format!("address() panicked: {e}"))?;
            if b.as_ref() as &[u8] != &a[..] {
                return Err(format!("replacing {n} sub-policies of {} by their opaque form changes the address from {} to {}", trunc(format!("{p:?}"), 600), hex(&a), b));
            }
            // the opaque policy of the whole policy has its address as well
            let o = s2::SpendPolicy::Opaque(p.to().address());
            if o.address().as_ref() as &[u8] != &a[..] {
                return Err("the opaque policy of an address has another address".into());
            }
            Ok(())
        }),
        sub("edits", 40_000, 1_500_000, |s, c| {
            let p = gen_pol(s);
            let mut q = p.clone();
            let how = edit_pol(&mut q, s);
            c.label(how);
            let same = same_form(&p, &q);
            c.nt_if(!same);
            c.sample(|| trunc(format!("{how}: {p:?} / {q:?}"), 600));
            let (a, b) = (pol_addr(&p)?, pol_addr(&q)?);
            match (same, a == b) {
                (false, true) => Err(format!("{how} edit leaves the address unchanged: {} / {}", trunc(format!("{p:?}"), 500), trunc(format!("{q:?}"), 500))),
                (true, false) => Err(format!("equivalent policies have different addresses: {} / {}", trunc(format!("{p:?}"), 500), trunc(format!("{q:?}"), 500))),
                _ => Ok(()),
            }
        }),
        sub("constructors", 6_000, 300_000, |s, c| {
            let p = match s.one_in(2) {
                true => Pol::leaf(s),
                false => Pol::Thresh(s.upto(255) as u8, (0..s.upto(5)).map(|_| Pol::leaf(s)).collect()),
            };
            let uc = matches!(&p, Pol::Thresh(_, v) if v.iter().any(|x| matches!(x, Pol::Uc(_))));
            let q = quiet(|| match &p {
                Pol::Above(h) => s2::SpendPolicy::above(*h),
                Pol::After(t) => s2::SpendPolicy::after(t.to()),
                Pol::Pk(k) => s2::SpendPolicy::public_key(k.to()),
                Pol::Hash(h) => s2::SpendPolicy::hash(h.to()),
                Pol::Thresh(n, v) => s2::SpendPolicy::threshold(*n, v.iter().map(|x| x.to()).collect()),
                Pol::Opaque(_) => p.to(),
                #[allow(deprecated)]
                Pol::Uc(u) => s2::SpendPolicy::unlock_conditions(u.to()),
            })
            ;
            if uc {
                // unlock conditions below a threshold are refused
                c.nt();
                c.label("refused");
                return match q {
                    Ok(q) => Err(format!("threshold of unlock conditions was constructed: {q:?}")),
                    Err(_) => Ok(()),
                };
            }
            let q = q.map_err(|e| format!("constructor of {p:?} panicked: {e}"))?;
            c.nt_if(!matches!(p, Pol::Opaque(_)));
            c.sample(|| trunc(format!("{p:?}"), 300));
            if Pol::of(&q) != p || q != p.to() {
                return Err(format!("constructor of {p:?} gives {q:?}"));
            }
            let a = quiet(|| q.address()).map_err(|e| format!("address() panicked: {e}"))?;
            if Addr::of(&a).0 != p.address() {
                return Err(format!("constructed {p:?} has address {a}"));
            }
            Ok(())
        }),
    ];
    Prop {
        id: "C09",
        rule: "random policy trees (depth to 30, width to 255, every leaf kind), compared with an independent address function; random sub-policies replaced by the opaque policy of the library's own address; one edit of threshold, order, membership, kind or content; non-trivial = more than one node, at least one substitution, an edit that changes the policy",
        assumptions: &["thresholds have at most 255 sub-policies (more cannot be encoded)", "BLAKE2b-256 has no collisions among the generated values"],
        subs,
    }
}
pub fn props() -> Vec<Prop> {
    vec![c08(), c09()]
}
