//! C13 v1 signature hashes, C14 v2 signature hashes
use super::codec::trunc;
use crate::engine::*;
use crate::model::*;
use crate::refhash::*;
use crate::sem::*;
use crate::tweak::*;
use sia::consensus::ChainState;
use std::collections::HashMap;

type H = [u8; 32];
fn tx1(s: &mut Src) -> Tx1 {
    let mut t = gen_okj::<Tx1>(s);
    s.budget = s.budget.max(25);
    for _ in 0..s.upto(3) {
        match s.upto(9) {
            0 | 1 => t.siacoin_inputs.push(gen_okj(s)),
            2 => t.siacoin_outputs.push(ScOut::gen(s)),
            3 => t.file_contracts.push(Fc1::gen(s)),
            4 => t.file_contract_revisions.push(gen_okj(s)),
            5 => t.storage_proofs.push(Sp1::gen(s)),
            6 => t.siafund_inputs.push(gen_okj(s)),
            7 => t.siafund_outputs.push(SfOut::gen(s)),
            8 => t.miner_fees.push(Cur::gen(s)),
            _ => t.signatures.push(TxSig::gen(s)),
        }
    }
    t
}
fn whole(cs: &ChainState, t: &Tx1, parent: &H, key: u64, tl: u64) -> Result<H, String> {
    let x = t.to();
    let p = sia::types::Hash256::new(*parent);
    let h = quiet(|| x.whole_sig_hash(cs, &p, key, tl)).map_err(|p| format!("whole_sig_hash panicked: {p}"))?;
    Ok(H256::of(&h.map_err(|e| format!("whole_sig_hash failed: {e:?}"))?).0)
}
fn partial(cs: &ChainState, t: &Tx1, f: &Cov) -> Result<Result<H, String>, String> {
    let x = t.to();
    let g = f.to();
    let h = quiet(|| x.partial_sig_hash(cs, &g)).map_err(|p| format!("partial_sig_hash panicked: {p}"))?;
    Ok(h.map(|h| H256::of(&h).0).map_err(|e| format!("{e:?}")))
}
/// a state on the other side of `cs`'s nearest prefix change, if there is one
fn other_height(c: &Cs, s: &mut Src) -> Cs {
    let mut d = c.clone();
    let n = &c.network;
    let b = *s.pick(&[n.hardfork_asic.height, n.hardfork_foundation.height, n.hardfork_v2.allow_height]);
    d.state.index.height = match s.upto(3) {
        0 => b,
        1 => b.saturating_sub(1),
        2 => b + 1,
        _ => s.upto(1 << 41),
    };
    d
}
/// index lists into parts of the given lengths; `bad` makes one index out of range
fn cover(t: &Tx1, s: &mut Src, bad: bool) -> Cov {
    let n = [
        t.siacoin_inputs.len(),
        t.siacoin_outputs.len(),
        t.file_contracts.len(),
        t.file_contract_revisions.len(),
        t.storage_proofs.len(),
        t.siafund_inputs.len(),
        t.siafund_outputs.len(),
        t.miner_fees.len(),
        t.arbitrary_data.len(),
        t.signatures.len(),
    ];
    let mut l: Vec<Vec<usize>> = n
        .iter()
        .map(|n| {
            if *n == 0 {
                return vec![];
            }
            match s.weighted(&[3, 4, 2, 1]) {
                0 => vec![],
                1 => (0..*n).filter(|_| s.bool()).collect(),
                2 => (0..*n).collect(),
                // any order, repetitions
                _ => (0..1 + s.upto(4)).map(|_| s.below(*n)).collect(),
            }
        })
        .collect();
    if bad {
        let k = s.below(10);
        let i = match s.upto(3) {
            0 => n[k],
            1 => n[k] + 1 + s.upto(300) as usize,
            2 => usize::MAX,
            _ => (s.u64() as usize).max(n[k]),
        };
        let at = s.below(l[k].len() + 1);
        l[k].insert(at, i);
    }
    let mut g = |k: usize| std::mem::take(&mut l[k]);
    Cov {
        whole_transaction: false,
        siacoin_inputs: g(0),
        siacoin_outputs: g(1),
        file_contracts: g(2),
        file_contract_revisions: g(3),
        storage_proofs: g(4),
        siafund_inputs: g(5),
        siafund_outputs: g(6),
        miner_fees: g(7),
        arbitrary_data: g(8),
        signatures: g(9),
    }
}
fn cov_len(f: &Cov) -> usize {
    f.siacoin_inputs.len()
        + f.siacoin_outputs.len()
        + f.file_contracts.len()
        + f.file_contract_revisions.len()
        + f.storage_proofs.len()
        + f.siafund_inputs.len()
        + f.siafund_outputs.len()
        + f.miner_fees.len()
        + f.arbitrary_data.len()
        + f.signatures.len()
}
/// the covered elements alone, in order
fn selected(t: &Tx1, f: &Cov) -> Tx1 {
    fn p<T: Clone>(v: &[T], ix: &[usize]) -> Vec<T> {
        ix.iter().filter_map(|i| v.get(*i).cloned()).collect()
    }
    Tx1 {
        siacoin_inputs: p(&t.siacoin_inputs, &f.siacoin_inputs),
        siacoin_outputs: p(&t.siacoin_outputs, &f.siacoin_outputs),
        file_contracts: p(&t.file_contracts, &f.file_contracts),
        file_contract_revisions: p(&t.file_contract_revisions, &f.file_contract_revisions),
        storage_proofs: p(&t.storage_proofs, &f.storage_proofs),
        siafund_inputs: p(&t.siafund_inputs, &f.siafund_inputs),
        siafund_outputs: p(&t.siafund_outputs, &f.siafund_outputs),
        miner_fees: p(&t.miner_fees, &f.miner_fees),
        arbitrary_data: p(&t.arbitrary_data, &f.arbitrary_data),
        signatures: p(&t.signatures, &f.signatures),
    }
}
fn c13() -> Prop {
    let subs = vec![
        sub("whole transaction", 20_000, 1_000_000, |s, c| {
            let t = tx1(s);
            let cs = gen_cs(s);
            let (p, k, l) = (s.arr(), s.u64(), s.u64());
            c.nt_if(v1_no_sigs(&t).len() > 72);
            c.label(match prefix(&cs) {
                [0] => "prefix 0",
                [1] => "prefix 1",
                [2] => "prefix 2",
                _ => "no prefix",
            });
            c.sample(|| trunc(format!("height {} key {k} timelock {l} {t:?}", cs.state.index.height), 600));
            let got = whole(&cs.to(), &t, &p, k, l)?;
            let want = blake2b(&v1_whole(&cs, &t, &p, k, l));
            if got != want {
                return Err(format!("whole signature hash is {}, should be {}", hex(&got), hex(&want)));
            }
            Ok(())
        }),
        sub("whole transaction, edits", 20_000, 1_000_000, |s, c| {
            let t = tx1(s);
            let cs = gen_cs(s);
            let (p, k, l): (H, u64, u64) = (s.arr(), s.u64(), s.u64());
            let a = whole(&cs.to(), &t, &p, k, l)?;
            let (b, same, what) = match s.weighted(&[6, 1, 1, 1, 3]) {
                0 => {
                    let Some((u, at)) = tweak(&t, s) else { return Ok(()) };
                    (whole(&cs.to(), &u, &p, k, l)?, v1_strip(&t) == v1_strip(&u), at)
                }
                1 => {
                    let mut q = p;
                    q[s.below(32)] ^= 1 << s.upto(7);
                    (whole(&cs.to(), &t, &q, k, l)?, false, "parent id".into())
                }
                2 => (whole(&cs.to(), &t, &p, k ^ (1 << s.upto(63)), l)?, false, "key index".into()),
                3 => (whole(&cs.to(), &t, &p, k, l ^ (1 << s.upto(63)))?, false, "timelock".into()),
                _ => {
                    let d = other_height(&cs, s);
                    let inputs = !t.siacoin_inputs.is_empty() || !t.siafund_inputs.is_empty();
                    (whole(&d.to(), &t, &p, k, l)?, !inputs || prefix(&cs) == prefix(&d), format!("height {} to {}", cs.state.index.height, d.state.index.height))
                }
            };
            c.nt();
            c.label_if(same, "edit that must not matter");
            c.label_if(what.starts_with("height"), "other height");
            c.sample(|| trunc(format!("{what}: {t:?}"), 500));
            if (a == b) != same {
                return Err(format!("whole signature hash {} when {what} changes", if same { "changes" } else { "stays the same" }));
            }
            Ok(())
        }),
        sub("covered fields", 30_000, 1_500_000, |s, c| {
            let t = tx1(s);
            let cs = gen_cs(s);
            let f = cover(&t, s, false);
            c.nt_if(cov_len(&f) > 0);
            c.label_if(cov_len(&f) >= 4, "4 or more covered");
            c.label_if(!f.siafund_inputs.is_empty(), "siafund input covered");
            if s.one_in(50) {
                // the marker for a whole transaction selects no single elements
                let w = sia::types::v1::CoveredFields::whole_transaction();
                let empty = sia::types::v1::CoveredFields { whole_transaction: true, ..Default::default() };
                if w != empty {
                    return Err(format!("the whole-transaction marker covers {w:?}"));
                }
            }
            c.sample(|| trunc(format!("{f:?}"), 600));
            let want = blake2b(&v1_partial(&cs, &t, &f).ok_or("generator")?);
            match partial(&cs.to(), &t, &f)? {
                Ok(got) if got == want => Ok(()),
                Ok(got) => Err(format!("partial signature hash is {}, should be {} for {f:?}", hex(&got), hex(&want))),
                Err(e) => Err(format!("partial signature hash refused valid indices: {e} for {f:?}")),
            }
        }),
        sub("covered fields, edits", 30_000, 1_500_000, |s, c| {
            let t = tx1(s);
            let cs = gen_cs(s);
            let f = cover(&t, s, false);
            let Ok(a) = partial(&cs.to(), &t, &f)? else { return Err("valid indices refused".into()) };
            if s.one_in(4) {
                let d = other_height(&cs, s);
                let same = (f.siacoin_inputs.is_empty() && f.siafund_inputs.is_empty()) || prefix(&cs) == prefix(&d);
                c.nt_if(!same);
                c.label("other height");
                let b = partial(&d.to(), &t, &f)?.map_err(|e| format!("valid indices refused: {e}"))?;
                if (a == b) != same {
                    return Err(format!(
                        "partial signature hash {} from height {} to {}",
                        if same { "changes" } else { "stays the same" },
                        cs.state.index.height,
                        d.state.index.height
                    ));
                }
                return Ok(());
            }
            let Some((u, at)) = tweak(&t, s) else { return Ok(()) };
            let Some(_) = v1_partial(&cs, &u, &f) else { return Ok(()) };
            let same = selected(&t, &f) == selected(&u, &f);
            c.nt();
            c.label(if same { "uncovered edit" } else { "covered edit" });
            c.sample(|| trunc(format!("{at} with {f:?}"), 500));
            let b = partial(&cs.to(), &u, &f)?.map_err(|e| format!("valid indices refused: {e}"))?;
            if (a == b) != same {
                return Err(format!("partial signature hash {} when {} element {at} changes; covered: {f:?}", if same { "changes" } else { "stays the same" }, if same { "uncovered" } else { "covered" }));
            }
            Ok(())
        }),
        sub("indices out of range", 20_000, 800_000, |s, c| {
            let t = tx1(s);
            let cs = gen_cs(s);
            let f = cover(&t, s, true);
            c.nt();
            c.sample(|| trunc(format!("{f:?}"), 600));
            if v1_partial(&cs, &t, &f).is_some() {
                return Err("generator".into());
            }
            match partial(&cs.to(), &t, &f)? {
                Err(_) => Ok(()),
                Ok(h) => Err(format!("index out of range gives hash {} for {f:?}", hex(&h))),
            }
        }),
    ];
    Prop {
        id: "C13",
        rule: "random v1 transactions, chain heights around permuted hardfork heights, covered-field lists with gaps, repetitions and any order; hashes compared with independently built preimages; one edit of transaction, parent, key index, timelock or height must change the hash exactly when it is covered; one index out of range must be refused; non-trivial = content covered, an edit made, an index out of range",
        assumptions: &["BLAKE2b-256 has no collisions among the generated values"],
        subs,
    }
}

fn hash2<T: M>(cs: &ChainState, m: &T, f: impl Fn(&T::S, &ChainState) -> sia::types::Hash256) -> Result<H, String> {
    let x = m.to();
    let h = quiet(|| f(&x, cs)).map_err(|p| format!("signature hash panicked: {p}"))?;
    Ok(H256::of(&h).0)
}
/// conformance and one edit for one kind
fn kind<T: J>(
    name: &'static str,
    tag: &'static str,
    gen: fn(&mut Src) -> T,
    hash: fn(&T::S, &ChainState) -> sia::types::Hash256,
    sem: fn(&T) -> Vec<u8>,
    strip: fn(&T) -> T,
    resign: fn(&T, &mut Src) -> T,
) -> Vec<Sub> {
    vec![
        sub(name, 15_000, 800_000, move |s, c| {
            let m = gen(s);
            let cs = gen_cs(s);
            c.nt();
            c.sample(|| trunc(format!("height {} {m:?}", cs.state.index.height), 500));
            let got = hash2(&cs.to(), &m, hash)?;
            let want = cat(&[tag.as_bytes(), prefix(&cs), &sem(&m)]);
            if got != want {
                return Err(format!("{name} signature hash is {}, should be {} for {}", hex(&got), hex(&want), trunc(format!("{m:?}"), 1500)));
            }
            Ok(())
        }),
        sub(format!("{name}, edits"), 20_000, 800_000, move |s, c| {
            let m = gen(s);
            let cs = gen_cs(s);
            let a = hash2(&cs.to(), &m, hash)?;
            let (b, same, what) = match s.weighted(&[4, 2, 2]) {
                0 if m.okj() => {
                    let Some((u, at)) = tweak(&m, s) else { return Ok(()) };
                    if at.contains(".claimAddress") {
                        return Ok(());
                    }
                    (hash2(&cs.to(), &u, hash)?, strip(&m) == strip(&u), at)
                }
                2 => {
                    let d = other_height(&cs, s);
                    (hash2(&d.to(), &m, hash)?, prefix(&cs) == prefix(&d), format!("height {} to {}", cs.state.index.height, d.state.index.height))
                }
                _ => {
                    let u = resign(&m, s);
                    (hash2(&cs.to(), &u, hash)?, true, "signature or witness".to_string())
                }
            };
            c.nt();
            c.label(if what.starts_with("height") {
                "other height"
            } else if same {
                "signature or witness edit"
            } else {
                "content edit"
            });
            c.sample(|| trunc(format!("{what}: {m:?}"), 500));
            if (a == b) != same {
                return Err(format!("{name} signature hash {} when {what} changes: {}", if same { "changes" } else { "stays the same" }, trunc(format!("{m:?}"), 1500)));
            }
            Ok(())
        }),
    ]
}
fn c14() -> Prop {
    let mut subs = vec![];
    subs.extend(kind::<Tx2>("input", "sia/sig/input|", gen_tx2, |x, c| x.input_sig_hash(c), v2_sem, v2_strip, v2_rewitness));
    subs.extend(kind::<Fc2>(
        "contract",
        "sia/sig/filecontract|",
        Fc2::gen,
        |x, c| x.sig_hash(c),
        |m| fc_strip(m).v2(),
        fc_strip,
        |m, s| {
            let mut u = m.clone();
            if s.bool() {
                u.renter_signature = Sig::gen(s)
            } else {
                u.host_signature = Sig::gen(s)
            }
            u
        },
    ));
    subs.extend(kind::<Ren>(
        "renewal",
        "sia/sig/filecontractrenewal|",
        Ren::gen,
        |x, c| x.sig_hash(c),
        |m| ren_strip(m).v2(),
        ren_strip,
        |m, s| {
            let mut u = m.clone();
            let g = Sig::gen(s);
            *match s.upto(5) {
                0 => &mut u.renter_signature,
                1 => &mut u.host_signature,
                2 => &mut u.final_revision.renter_signature,
                3 => &mut u.final_revision.host_signature,
                4 => &mut u.new_contract.renter_signature,
                _ => &mut u.new_contract.host_signature,
            } = g;
            u
        },
    ));
    subs.extend(kind::<Att>(
        "attestation",
        "sia/sig/attestation|",
        Att::gen,
        |x, c| x.sig_hash(c),
        |m| att_strip(m).v2(),
        att_strip,
        |m, s| {
            let mut u = m.clone();
            u.signature = Sig::gen(s);
            u
        },
    ));
    subs.push(sub("kinds and eras", 10_000, 400_000, |s, c| {
        // the same contract content under every kind, on both sides of the v2 hardfork
        let fc = Fc2::gen(s);
        let mut r = Ren::gen(s);
        match s.upto(2) {
            0 => r.final_revision = fc.clone(),
            1 => r.new_contract = fc.clone(),
            _ => {}
        }
        let att = Att { value: Blob(fc.v2()), ..Att::gen(s) };
        let mut t = gen_tx2(s);
        t.file_contracts.push(fc.clone());
        let cs = gen_cs(s);
        let mut before = cs.clone();
        before.state.index.height = cs.network.hardfork_v2.allow_height.saturating_sub(1);
        let mut after = cs.clone();
        after.state.index.height = cs.network.hardfork_v2.allow_height + s.upto(3);
        if before.state.index.height >= cs.network.hardfork_v2.allow_height {
            return Ok(());
        }
        c.nt();
        c.sample(|| trunc(format!("{fc:?}"), 500));
        let mut seen: HashMap<H, String> = HashMap::new();
        for (era, k) in [("before", &before), ("after", &after)] {
            let k = k.to();
            let all = [
                ("input", hash2(&k, &t, |x: &sia::types::v2::Transaction, c| x.input_sig_hash(c))?),
                ("contract", hash2(&k, &fc, |x: &sia::types::v2::FileContract, c| x.sig_hash(c))?),
                ("renewal", hash2(&k, &r, |x: &sia::types::v2::FileContractRenewal, c| x.sig_hash(c))?),
                ("attestation", hash2(&k, &att, |x: &sia::types::v2::Attestation, c| x.sig_hash(c))?),
                ("transaction id", TxId::of(&t.to().id()).0),
            ];
            for (n, h) in all {
                let n = if n == "transaction id" { n.to_string() } else { format!("{n} {era} the v2 hardfork") };
                if let Some(o) = seen.insert(h, n.clone()) {
                    if o != n {
                        return Err(format!("{o} and {n} share hash {}", hex(&h)));
                    }
                }
            }
        }
        Ok(())
    }));
    Prop {
        id: "C14",
        rule: "random v2 transactions, contracts, renewals and attestations at heights around permuted hardfork heights; hashes compared with independently built preimages; one edit of content, signature, witness or height must change the hash exactly when the stripped values or the replay prefixes differ; the same content under all kinds and on both sides of the v2 hardfork must give distinct hashes; non-trivial = all of these",
        assumptions: &["BLAKE2b-256 has no collisions among the generated values", "whether the input hash covers a siafund input's claim address is left open (the reference node's form of this version does not)"],
        subs,
    }
}
pub fn props() -> Vec<Prop> {
    vec![c13(), c14()]
}
