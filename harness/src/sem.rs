//! Reference semantics: what transaction ids and signature hashes commit to.
use crate::engine::Src;
use crate::model::*;
use crate::refhash::*;

// ---------------------------------------------------------------- chain states
/// a light chain state: random hardfork heights, a height near one of them
pub fn gen_cs(s: &mut Src) -> Cs {
    let h = |s: &mut Src| match s.weighted(&[6, 2, 1]) {
        0 => s.upto(400),
        1 => s.upto(2_000_000),
        _ => s.upto(1 << 40),
    };
    let mut f = [h(s), h(s), h(s), h(s)];
    if !s.one_in(4) {
        f.sort(); // the usual order: tax, asic, foundation, v2
    }
    if s.one_in(4) {
        // two forks at one height, or at neighbouring ones
        let (i, j) = (s.below(4), s.below(4));
        f[i] = f[j].saturating_add(s.upto(1));
    }
    let z = |b: u8| Addr([b; 32]);
    let net = Net {
        name: "test".into(),
        initial_coinbase: Cur(300_000 * 10u128.pow(24)),
        minimum_coinbase: Cur(30_000 * 10u128.pow(24)),
        initial_target: BkId([1; 32]),
        block_interval: Dur(600_000_000_000),
        maturity_delay: 144,
        hardfork_dev_addr: HfDev { height: 1, old_address: z(1), new_address: z(2) },
        hardfork_tax: HfTax { height: f[0] },
        hardfork_storage_proof: HfSp { height: 5 },
        hardfork_oak: HfOak { height: 10, fix_height: 12, genesis_timestamp: Ts(1_600_000_000) },
        hardfork_asic: HfAsic { height: f[1], oak_time: Dur(10_000_000_000_000), oak_target: BkId([2; 32]) },
        hardfork_foundation: HfFnd { height: f[2], primary_address: z(3), failsafe_address: z(4) },
        hardfork_v2: HfV2 { allow_height: f[3], require_height: f[3].saturating_add(10) },
    };
    let height = match s.weighted(&[6, 2, 1]) {
        0 => {
            let x = *s.pick(&f);
            (x + s.upto(4)).saturating_sub(2)
        }
        1 => h(s),
        _ => s.upto(12),
    };
    let id = |b: u8| BkId([b; 32]);
    Cs {
        network: net,
        state: St {
            index: CIdx { height, id: id(7) },
            prev_timestamps: [Ts(0); 11],
            depth: id(8),
            child_target: id(9),
            siafund_pool: Cur(0),
            oak_time: Dur(0),
            oak_target: id(10),
            primary: z(5),
            failsafe: z(6),
            total_work: Wk([0; 32]),
            difficulty: Wk([0; 32]),
            oak_work: Wk([0; 32]),
            elements: Acc { num_leaves: 0, trees: vec![] },
            attestations: 0,
        },
    }
}
pub fn prefix(c: &Cs) -> &'static [u8] {
    let h = c.state.index.height;
    if h >= c.network.hardfork_v2.allow_height {
        &[2]
    } else if h >= c.network.hardfork_foundation.height {
        &[1]
    } else if h >= c.network.hardfork_asic.height {
        &[0]
    } else {
        &[]
    }
}

// ---------------------------------------------------------------- v1
pub fn v1_no_sigs(t: &Tx1) -> Vec<u8> {
    let mut o = Vec::new();
    t.siacoin_inputs.e1(&mut o);
    t.siacoin_outputs.e1(&mut o);
    t.file_contracts.e1(&mut o);
    t.file_contract_revisions.e1(&mut o);
    t.storage_proofs.e1(&mut o);
    t.siafund_inputs.e1(&mut o);
    t.siafund_outputs.e1(&mut o);
    t.miner_fees.e1(&mut o);
    t.arbitrary_data.e1(&mut o);
    o
}
pub fn v1_strip(t: &Tx1) -> Tx1 {
    let mut t = t.clone();
    t.signatures = vec![];
    t
}
/// 16-byte specifier, encoding without signatures, index
pub fn v1_child(kind: &str, t: &Tx1, i: u64) -> [u8; 32] {
    cat(&[&spec(kind), &v1_no_sigs(t), &i.to_le_bytes()])
}
pub fn v1_whole(c: &Cs, t: &Tx1, parent: &[u8; 32], key: u64, timelock: u64) -> Vec<u8> {
    let p = prefix(c);
    let mut o = Vec::new();
    p64(&mut o, t.siacoin_inputs.len() as u64);
    for x in &t.siacoin_inputs {
        o.extend_from_slice(p);
        x.e1(&mut o)
    }
    t.siacoin_outputs.e1(&mut o);
    t.file_contracts.e1(&mut o);
    t.file_contract_revisions.e1(&mut o);
    t.storage_proofs.e1(&mut o);
    p64(&mut o, t.siafund_inputs.len() as u64);
    for x in &t.siafund_inputs {
        o.extend_from_slice(p);
        x.e1(&mut o)
    }
    t.siafund_outputs.e1(&mut o);
    t.miner_fees.e1(&mut o);
    t.arbitrary_data.e1(&mut o);
    o.extend_from_slice(parent);
    p64(&mut o, key);
    p64(&mut o, timelock);
    o
}
/// None when an index is out of range
pub fn v1_partial(c: &Cs, t: &Tx1, f: &Cov) -> Option<Vec<u8>> {
    fn put<T: B1>(o: &mut Vec<u8>, p: &[u8], v: &[T], ix: &[usize]) -> Option<()> {
        for i in ix {
            o.extend_from_slice(p);
            v.get(*i)?.e1(o);
        }
        Some(())
    }
    let p = prefix(c);
    let mut o = Vec::new();
    put(&mut o, p, &t.siacoin_inputs, &f.siacoin_inputs)?;
    put(&mut o, &[], &t.siacoin_outputs, &f.siacoin_outputs)?;
    put(&mut o, &[], &t.file_contracts, &f.file_contracts)?;
    put(&mut o, &[], &t.file_contract_revisions, &f.file_contract_revisions)?;
    put(&mut o, &[], &t.storage_proofs, &f.storage_proofs)?;
    put(&mut o, p, &t.siafund_inputs, &f.siafund_inputs)?;
    put(&mut o, &[], &t.siafund_outputs, &f.siafund_outputs)?;
    put(&mut o, &[], &t.miner_fees, &f.miner_fees)?;
    put(&mut o, &[], &t.arbitrary_data, &f.arbitrary_data)?;
    put(&mut o, &[], &t.signatures, &f.signatures)?;
    Some(o)
}

// ---------------------------------------------------------------- v2
pub fn fc_strip(f: &Fc2) -> Fc2 {
    let mut f = f.clone();
    f.renter_signature = Sig([0; 64]);
    f.host_signature = Sig([0; 64]);
    f
}
pub fn ren_strip(r: &Ren) -> Ren {
    let mut r = r.clone();
    r.final_revision = fc_strip(&r.final_revision);
    r.new_contract = fc_strip(&r.new_contract);
    r.renter_signature = Sig([0; 64]);
    r.host_signature = Sig([0; 64]);
    r
}
pub fn att_strip(a: &Att) -> Att {
    let mut a = a.clone();
    a.signature = Sig([0; 64]);
    a
}
pub fn ci_sem(e: &CiEl) -> Vec<u8> {
    let mut o = Vec::new();
    p64(&mut o, e.state_element.leaf_index);
    p64(&mut o, 0); // no merkle proof
    e.id.e2(&mut o);
    e.chain_index.e2(&mut o);
    o
}
pub fn res_sem(r: &Res) -> Vec<u8> {
    let mut o = r.parent.id.0.to_vec();
    match &r.resolution {
        ResKind::Renewal(x) => ren_strip(x).e2(&mut o),
        ResKind::Proof(p) => {
            o.extend(ci_sem(&p.proof_index));
            p.leaf.e2(&mut o);
            p.proof.e2(&mut o);
        }
        ResKind::Expiration => {}
    }
    o
}
/// the semantic content of a v2 transaction
pub fn v2_sem(t: &Tx2) -> Vec<u8> {
    let mut o = Vec::new();
    p64(&mut o, t.siacoin_inputs.len() as u64);
    for x in &t.siacoin_inputs {
        x.parent.id.e2(&mut o)
    }
    t.siacoin_outputs.e2(&mut o);
    p64(&mut o, t.siafund_inputs.len() as u64);
    for x in &t.siafund_inputs {
        x.parent.id.e2(&mut o)
    }
    t.siafund_outputs.e2(&mut o);
    p64(&mut o, t.file_contracts.len() as u64);
    for x in &t.file_contracts {
        fc_strip(x).e2(&mut o)
    }
    p64(&mut o, t.file_contract_revisions.len() as u64);
    for x in &t.file_contract_revisions {
        x.parent.id.e2(&mut o);
        fc_strip(&x.revision).e2(&mut o)
    }
    p64(&mut o, t.file_contract_resolutions.len() as u64);
    for x in &t.file_contract_resolutions {
        o.extend(res_sem(x))
    }
    t.attestations.e2(&mut o);
    t.arbitrary_data.e2(&mut o);
    t.new_foundation_address.e2(&mut o);
    t.miner_fee.e2(&mut o);
    o
}
fn blank_stel() -> StEl {
    StEl { leaf_index: 0, merkle_proof: vec![] }
}
fn blank_fc() -> Fc2 {
    let o = ScOut { value: Cur(0), address: Addr([0; 32]) };
    Fc2 {
        capacity: 0,
        filesize: 0,
        file_merkle_root: H256([0; 32]),
        proof_height: 0,
        expiration_height: 0,
        renter_output: o.clone(),
        host_output: o,
        missed_host_value: Cur(0),
        total_collateral: Cur(0),
        renter_public_key: Pk([0; 32]),
        host_public_key: Pk([0; 32]),
        revision_number: 0,
        renter_signature: Sig([0; 64]),
        host_signature: Sig([0; 64]),
    }
}
fn blank_pol() -> SatPol {
    SatPol { policy: Pol::Above(0), signatures: vec![], preimages: vec![] }
}
/// the transaction with everything its id does not cover replaced by blanks
pub fn v2_strip(t: &Tx2) -> Tx2 {
    let mut t = t.clone();
    for x in t.siacoin_inputs.iter_mut() {
        x.satisfied_policy = blank_pol();
        x.parent = ScEl { state_element: blank_stel(), id: x.parent.id, siacoin_output: ScOut { value: Cur(0), address: Addr([0; 32]) }, maturity_height: 0 };
    }
    for x in t.siafund_inputs.iter_mut() {
        x.satisfied_policy = blank_pol();
        x.claim_address = Addr([0; 32]);
        x.parent = SfEl { state_element: blank_stel(), id: x.parent.id, siafund_output: SfOut { value: 0, address: Addr([0; 32]) }, claim_start: Cur(0) };
    }
    for x in t.file_contracts.iter_mut() {
        *x = fc_strip(x)
    }
    for x in t.file_contract_revisions.iter_mut() {
        x.parent = FcEl { state_element: blank_stel(), id: x.parent.id, v2_file_contract: blank_fc() };
        x.revision = fc_strip(&x.revision);
    }
    for x in t.file_contract_resolutions.iter_mut() {
        x.parent = FcEl { state_element: blank_stel(), id: x.parent.id, v2_file_contract: blank_fc() };
        match &mut x.resolution {
            ResKind::Renewal(r) => *r = ren_strip(r),
            ResKind::Proof(p) => p.proof_index.state_element.merkle_proof = vec![],
            ResKind::Expiration => {}
        }
    }
    t
}
/// the same transaction with other witness data
pub fn v2_rewitness(t: &Tx2, s: &mut Src) -> Tx2 {
    let mut t = t.clone();
    s.budget = s.budget.max(30);
    for x in t.siacoin_inputs.iter_mut() {
        match s.upto(4) {
            0 => x.satisfied_policy = SatPol::gen(s),
            1 => x.parent.state_element = StEl::gen(s),
            2 => x.parent.siacoin_output = ScOut::gen(s),
            3 => x.parent.maturity_height = s.u64(),
            _ => {
                let id = x.parent.id;
                *x = ScIn2::gen(s);
                x.parent.id = id
            }
        }
    }
    for x in t.siafund_inputs.iter_mut() {
        let (id, claim) = (x.parent.id, x.claim_address);
        match s.upto(3) {
            0 => x.satisfied_policy = SatPol::gen(s),
            1 => x.parent.state_element = StEl::gen(s),
            2 => x.parent = SfEl::gen(s),
            _ => *x = SfIn2::gen(s),
        }
        x.parent.id = id;
        x.claim_address = claim;
    }
    let resign = |f: &mut Fc2, s: &mut Src| {
        if s.bool() {
            f.renter_signature = Sig::gen(s)
        } else {
            f.host_signature = Sig::gen(s)
        }
    };
    for x in t.file_contracts.iter_mut() {
        resign(x, s)
    }
    for x in t.file_contract_revisions.iter_mut() {
        resign(&mut x.revision, s);
        let id = x.parent.id;
        match s.upto(2) {
            0 => x.parent.state_element = StEl::gen(s),
            1 => x.parent.v2_file_contract = Fc2::gen(s),
            _ => x.parent = FcEl::gen(s),
        }
        x.parent.id = id;
    }
    for x in t.file_contract_resolutions.iter_mut() {
        let id = x.parent.id;
        match s.upto(2) {
            0 => x.parent.state_element = StEl::gen(s),
            1 => x.parent.v2_file_contract = Fc2::gen(s),
            _ => x.parent = FcEl::gen(s),
        }
        x.parent.id = id;
        match &mut x.resolution {
            ResKind::Renewal(r) => match s.upto(3) {
                0 => r.renter_signature = Sig::gen(s),
                1 => r.host_signature = Sig::gen(s),
                2 => resign(&mut r.final_revision, s),
                _ => resign(&mut r.new_contract, s),
            },
            ResKind::Proof(p) => p.proof_index.state_element.merkle_proof = Vec::gen(s),
            ResKind::Expiration => {}
        }
    }
    t
}
/// a v2 transaction that often has resolutions, revisions and inputs
pub fn gen_tx2(s: &mut Src) -> Tx2 {
    let mut t = Tx2::gen(s);
    if s.bool() {
        s.budget = s.budget.max(20);
        match s.upto(5) {
            0 => t.siacoin_inputs.push(ScIn2::gen(s)),
            1 => t.siafund_inputs.push(SfIn2::gen(s)),
            2 => t.file_contract_revisions.push(Fcr2::gen(s)),
            3 => t.file_contracts.push(Fc2::gen(s)),
            _ => t.file_contract_resolutions.push(Res::gen(s)),
        }
    }
    t
}
