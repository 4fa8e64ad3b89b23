//! C11 v1 ids, C12 v2 ids
use super::codec::{diff, trunc};
use crate::engine::*;
use crate::model::*;
use crate::refhash::*;
use crate::sem::*;
use crate::tweak::*;
use sia::types as st;
use std::collections::HashMap;

fn q<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    quiet(f).map_err(|p| format!("{what} panicked: {p}"))
}
fn eq(what: &str, got: &[u8; 32], want: &[u8; 32]) -> R {
    if got != want {
        return Err(format!("{what} is {}, should be {}", hex(got), hex(want)));
    }
    Ok(())
}
fn index(s: &mut Src) -> usize {
    match s.weighted(&[6, 2, 2, 1]) {
        0 => s.upto(5) as usize,
        1 => s.upto(300) as usize,
        2 => *s.pick(&[255usize, 256, 65535, 65536, u32::MAX as usize, u32::MAX as usize + 1, usize::MAX]),
        _ => s.u64() as usize,
    }
}
fn tx1_big(s: &mut Src) -> Tx1 {
    let mut t = gen_okj::<Tx1>(s);
    if s.bool() {
        s.budget = s.budget.max(20);
        match s.upto(4) {
            0 => t.siacoin_inputs.push(gen_okj(s)),
            1 => t.file_contract_revisions.push(gen_okj(s)),
            2 => t.siafund_inputs.push(gen_okj(s)),
            3 => t.file_contracts.push(Fc1::gen(s)),
            _ => t.storage_proofs.push(Sp1::gen(s)),
        }
    }
    t
}
fn v1_ids(t: &Tx1, i: usize) -> Result<[[u8; 32]; 4], String> {
    let x = t.to();
    Ok([
        TxId::of(&q("id", || x.id())?).0,
        ScId::of(&q("siacoin_output_id", || x.siacoin_output_id(i))?).0,
        SfId::of(&q("siafund_output_id", || x.siafund_output_id(i))?).0,
        FcId::of(&q("file_contract_id", || x.file_contract_id(i))?).0,
    ])
}
const V1NAMES: [&str; 4] = ["id", "siacoin_output_id", "siafund_output_id", "file_contract_id"];
fn c11() -> Prop {
    let subs = vec![
        sub("ids", 30_000, 1_500_000, |s, c| {
            let t = if s.bool() { tx1_big(s) } else { Tx1::gen(s) };
            let i = index(s);
            let body = v1_no_sigs(&t);
            c.nt_if(body.len() > 72);
            c.label_if(!t.signatures.is_empty(), "signed");
            c.label_if(i > 255, "large index");
            c.sample(|| trunc(format!("index {i}: {t:?}"), 600));
            let mut b = Vec::new();
            let x = t.to();
            q("encode_no_sigs", || x.encode_no_sigs(&mut b))?.map_err(|e| format!("encode_no_sigs failed: {e:?}"))?;
            if b != body {
                return Err(format!("encoding without signatures differs: {}", diff(&b, &body)));
            }
            let got = v1_ids(&t, i)?;
            let want = [blake2b(&body), v1_child("siacoin output", &t, i as u64), v1_child("siafund output", &t, i as u64), v1_child("file contract", &t, i as u64)];
            for k in 0..4 {
                eq(&format!("{}({i})", V1NAMES[k]), &got[k], &want[k])?;
            }
            Ok(())
        }),
        sub("signatures", 15_000, 800_000, |s, c| {
            let t = tx1_big(s);
            let mut u = t.clone();
            s.budget = 30;
            match s.upto(3) {
                0 => u.signatures.push(TxSig::gen(s)),
                1 if !u.signatures.is_empty() => {
                    u.signatures.pop();
                }
                2 if !u.signatures.is_empty() => {
                    let i = s.below(u.signatures.len());
                    u.signatures[i].signature = Blob::gen(s);
                    u.signatures[i].public_key_index ^= 1;
                }
                _ => u.signatures = (0..1 + s.upto(3)).map(|_| TxSig::gen(s)).collect(),
            }
            let i = index(s);
            c.nt_if(t != u);
            c.sample(|| trunc(format!("{:?} / {:?}", t.signatures, u.signatures), 600));
            let (a, b) = (v1_ids(&t, i)?, v1_ids(&u, i)?);
            for k in 0..4 {
                if a[k] != b[k] {
                    return Err(format!("{} changes with the signatures", V1NAMES[k]));
                }
            }
            Ok(())
        }),
        sub("content", 30_000, 1_500_000, |s, c| {
            let t = tx1_big(s);
            let Some((u, at)) = tweak(&t, s) else { return Ok(()) };
            let same = v1_strip(&t) == v1_strip(&u);
            let i = index(s);
            c.nt_if(!same);
            c.label(if same { "signature edit" } else { "content edit" });
            c.sample(|| trunc(format!("{at} in {t:?}"), 500));
            let (a, b) = (v1_ids(&t, i)?, v1_ids(&u, i)?);
            for k in 0..4 {
                if (a[k] == b[k]) != same {
                    return Err(format!("{} {} when {at} changes", V1NAMES[k], if same { "changes" } else { "stays the same" }));
                }
            }
            Ok(())
        }),
        sub("derived ids", 20_000, 800_000, |s, c| {
            let b: [u8; 32] = s.arr();
            let i = index(s);
            c.nt();
            c.label_if(i > 255, "large index");
            c.sample(|| format!("{} index {i}", hex(&b)));
            let le = (i as u64).to_le_bytes();
            let sp = spec("storage proof");
            let (f, k, sf) = (st::FileContractID::new(b), st::BlockID::new(b), st::SiafundOutputID::new(b));
            eq(&format!("valid_output_id({i})"), f.valid_output_id(i).as_ref(), &cat(&[&sp, &b, &[1], &le]))?;
            eq(&format!("missed_output_id({i})"), f.missed_output_id(i).as_ref(), &cat(&[&sp, &b, &[0], &le]))?;
            eq(&format!("miner_output_id({i})"), k.miner_output_id(i).as_ref(), &cat(&[&b, &le]))?;
            eq("foundation_output_id", k.foundation_output_id().as_ref(), &cat(&[&b, &spec("foundation")]))?;
            eq("claim_output_id", sf.claim_output_id().as_ref(), &blake2b(&b))
        }),
        sub("kinds, parents and indices", 2_000, 60_000, |s, c| pool(s, c, false)),
    ];
    Prop {
        id: "C11",
        rule: "random v1 transactions with every part, ids compared with hashes of the reference encoding; signature-only edits; one semantic edit anywhere in the transaction; derived ids of random parents at boundary indices; pools of all kinds over shared parents and indices checked for collisions; non-trivial = a transaction with content, an edit that changes something",
        assumptions: &["BLAKE2b-256 has no collisions among the generated values"],
        subs,
    }
}

/// all kinds of ids over a few parents and indices; every (kind, parent, index) must be unique
fn pool(s: &mut Src, c: &mut Cx, v2: bool) -> R {
    let mut parents: Vec<[u8; 32]> = vec![s.arr(), s.arr()];
    let mut p = parents[0];
    p[s.below(32)] ^= 1 << s.upto(7);
    parents.push(p);
    parents.dedup();
    let mut ix = vec![0usize, 1, 2, 255, 256, 65536, 1 << 32, usize::MAX, index(s), index(s)];
    ix.sort();
    ix.dedup();
    let tx = tx1_big(s);
    let mut seen: HashMap<[u8; 32], String> = HashMap::new();
    let mut add = |id: &[u8; 32], name: String| -> R {
        match seen.insert(*id, name.clone()) {
            Some(o) if o != name => Err(format!("{o} and {name} share id {}", hex(id))),
            _ => Ok(()),
        }
    };
    c.nt();
    c.sample(|| format!("parents {:?} indices {ix:?}", parents.iter().map(|p| hex(p)).collect::<Vec<_>>()));
    for b in &parents {
        let h = hex(b);
        let (f, k, sf, t) = (st::FileContractID::new(*b), st::BlockID::new(*b), st::SiafundOutputID::new(*b), st::TransactionID::new(*b));
        add(sf.claim_output_id().as_ref(), format!("claim {h}"))?;
        add(k.foundation_output_id().as_ref(), format!("foundation {h}"))?;
        for i in &ix {
            add(f.valid_output_id(*i).as_ref(), format!("valid {h} {i}"))?;
            add(f.missed_output_id(*i).as_ref(), format!("missed {h} {i}"))?;
            add(k.miner_output_id(*i).as_ref(), format!("miner {h} {i}"))?;
            if v2 {
                add(t.v2_siacoin_output_id(*i).as_ref(), format!("v2 siacoin output {h} {i}"))?;
                add(t.v2_siafund_output_id(*i).as_ref(), format!("v2 siafund output {h} {i}"))?;
                add(t.v2_file_contract_id(*i).as_ref(), format!("v2 contract {h} {i}"))?;
                add(t.v2_attestation_id(*i).as_ref(), format!("v2 attestation {h} {i}"))?;
            }
        }
        if v2 {
            add(sf.v2_claim_output_id().as_ref(), format!("v2 claim {h}"))?;
            add(f.v2_renter_output_id().as_ref(), format!("v2 renter {h}"))?;
            add(f.v2_host_output_id().as_ref(), format!("v2 host {h}"))?;
            add(f.v2_renewal_id().as_ref(), format!("v2 renewal {h}"))?;
        }
        c.extra_evals += 1;
    }
    let x = tx.to();
    add(x.id().as_ref(), "v1 txid".into())?;
    for i in &ix {
        add(x.siacoin_output_id(*i).as_ref(), format!("v1 siacoin output {i}"))?;
        add(x.siafund_output_id(*i).as_ref(), format!("v1 siafund output {i}"))?;
        add(x.file_contract_id(*i).as_ref(), format!("v1 contract {i}"))?;
    }
    Ok(())
}

fn v2_id(t: &Tx2) -> Result<[u8; 32], String> {
    let x = t.to();
    Ok(TxId::of(&q("id", || x.id())?).0)
}
fn c12() -> Prop {
    let subs = vec![
        sub("id", 30_000, 1_500_000, |s, c| {
            let t = gen_tx2(s);
            c.nt_if(t != v2_strip(&t) || !t.siacoin_outputs.is_empty());
            c.label_if(t.file_contract_resolutions.iter().any(|r| matches!(r.resolution, ResKind::Renewal(_))), "renewal");
            c.label_if(t.file_contract_resolutions.iter().any(|r| matches!(r.resolution, ResKind::Proof(_))), "storage proof");
            c.label_if(t.file_contract_resolutions.iter().any(|r| matches!(r.resolution, ResKind::Expiration)), "expiration");
            c.label_if(!t.siacoin_inputs.is_empty(), "siacoin input");
            c.label_if(!t.siafund_inputs.is_empty(), "siafund input");
            c.label_if(!t.file_contract_revisions.is_empty(), "revision");
            c.label_if(!t.attestations.is_empty(), "attestation");
            c.sample(|| trunc(format!("{t:?}"), 600));
            eq("id of a v2 transaction", &v2_id(&t)?, &blake2b(&v2_sem(&t)))
        }),
        sub("witness data", 30_000, 1_500_000, |s, c| {
            let t = gen_tx2(s);
            let u = v2_rewitness(&t, s);
            c.nt_if(t != u);
            c.sample(|| trunc(format!("{t:?}"), 600));
            if v2_id(&t)? != v2_id(&u)? {
                return Err(format!("the id changes with witness data: {} / {}", trunc(format!("{t:?}"), 1500), trunc(format!("{u:?}"), 1500)));
            }
            Ok(())
        }),
        sub("content", 40_000, 2_000_000, |s, c| {
            let mut t = gen_tx2(s);
            if !t.okj() {
                t.siacoin_inputs.clear();
                t.siafund_inputs.clear();
                t.file_contract_revisions.clear();
            }
            let Some((u, at)) = tweak(&t, s) else { return Ok(()) };
            let same = v2_strip(&t) == v2_strip(&u);
            c.nt();
            c.label(if same { "witness edit" } else { "content edit" });
            c.sample(|| trunc(format!("{at} in {t:?}"), 500));
            if at.contains(".claimAddress") {
                return Ok(()); // whether the id covers claim addresses is left open
            }
            let (a, b) = (v2_id(&t)?, v2_id(&u)?);
            if (a == b) != same {
                return Err(format!("id {} when {at} changes", if same { "changes" } else { "stays the same" }));
            }
            Ok(())
        }),
        sub("derived ids", 20_000, 800_000, |s, c| {
            let b: [u8; 32] = s.arr();
            let i = index(s);
            c.nt();
            c.label_if(i > 255, "large index");
            c.sample(|| format!("{} index {i}", hex(&b)));
            let le = (i as u64).to_le_bytes();
            let z = 0u64.to_le_bytes();
            let one = 1u64.to_le_bytes();
            let (f, sf, t) = (st::FileContractID::new(b), st::SiafundOutputID::new(b), st::TransactionID::new(b));
            eq(&format!("v2_siacoin_output_id({i})"), t.v2_siacoin_output_id(i).as_ref(), &cat(&[b"sia/id/siacoinoutput|", &b, &le]))?;
            eq(&format!("v2_siafund_output_id({i})"), t.v2_siafund_output_id(i).as_ref(), &cat(&[b"sia/id/siafundoutput|", &b, &le]))?;
            eq(&format!("v2_file_contract_id({i})"), t.v2_file_contract_id(i).as_ref(), &cat(&[b"sia/id/filecontract|", &b, &le]))?;
            eq(&format!("v2_attestation_id({i})"), t.v2_attestation_id(i).as_ref(), &cat(&[b"sia/id/attestation|", &b, &le]))?;
            eq("v2_claim_output_id", sf.v2_claim_output_id().as_ref(), &cat(&[b"sia/id/v2siacoinclaimoutput|", &b]))?;
            eq("v2_renter_output_id", f.v2_renter_output_id().as_ref(), &cat(&[b"sia/id/v2filecontractoutput|", &b, &z]))?;
            eq("v2_host_output_id", f.v2_host_output_id().as_ref(), &cat(&[b"sia/id/v2filecontractoutput|", &b, &one]))?;
            eq("v2_renewal_id", f.v2_renewal_id().as_ref(), &cat(&[b"sia/id/v2filecontractrenewal|", &b]))
        }),
        sub("kinds, parents and indices", 2_000, 60_000, |s, c| pool(s, c, true)),
    ];
    Prop {
        id: "C12",
        rule: "random v2 transactions with every part, ids compared with the hash of independently built semantics; all witness data regenerated; one semantic edit anywhere (must change the id exactly when the stripped transactions differ); derived ids of random parents at boundary indices, and pools of all v1 and v2 kinds over shared parents and indices checked for collisions; non-trivial = a transaction with content, an edit that changes something",
        assumptions: &["BLAKE2b-256 has no collisions among the generated values", "whether an id covers a siafund input's claim address is left open (the reference node's form of this version does not)"],
        subs,
    }
}
pub fn props() -> Vec<Prop> {
    vec![c11(), c12()]
}
