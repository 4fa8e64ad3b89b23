import runpy,os
G=runpy.run_path(os.path.join(os.path.dirname(__file__),"seeds1.py"))
CS=G["CS"];EMPTY2=G["EMPTY2"]
V2="sia/src/types/v2.rs";V1="sia/src/types/v1.rs";SP="sia/src/types/spendpolicy.rs";CU="sia/src/types/currency.rs";C="sia/src/types/common.rs"
E2="sia/src/encoding/v2.rs";E1="sia/src/encoding/v1.rs";CO="sia/src/consensus.rs";SG="sia/src/signing.rs";SD="sia/src/seed.rs";UT="sia/src/types/utils.rs"
MK="sia/src/merkle.rs";RH="sia/src/rhp.rs";DV="sia_derive/src/lib.rs";MA="sia/src/macros.rs";WK="sia/src/types/work.rs"
FC2='v2::FileContract { capacity: 1, filesize: 1, file_merkle_root: Hash256::default(), proof_height: 5, expiration_height: 9, renter_output: SiacoinOutput { value: Currency::new(1), address: Address::default() }, host_output: SiacoinOutput { value: Currency::new(2), address: Address::default() }, missed_host_value: Currency::zero(), total_collateral: Currency::zero(), renter_public_key: sia::signing::PublicKey::new([1; 32]), host_public_key: sia::signing::PublicKey::new([2; 32]), revision_number: 1, renter_signature: sia::signing::Signature::new([0; 64]), host_signature: sia::signing::Signature::new([0; 64]) }'
SEEDS=[
dict(id="c01-early-policy",property="C01",edits=[(SP,"SpendPolicy::After(time) => (time.unix_timestamp() as u64).encode(w),","SpendPolicy::After(time) => time.unix_timestamp().unsigned_abs().encode(w),")],
 needs="a spend policy valid after a time before 1970",breaks="the sign of the time is lost in the encoding (and so in addresses)",
 demo='''
use sia::encoding::*; use sia::types::v2::SpendPolicy;
fn main() {
    let p = SpendPolicy::after(time::OffsetDateTime::from_unix_timestamp(-86400).unwrap());
    let mut b = Vec::new(); p.encode(&mut b).unwrap();
    assert_eq!(SpendPolicy::decode(&mut &b[..]).unwrap(), p);
}'''),
dict(id="c01-void-foundation",property="C01",edits=[
 (V2,"            self.new_foundation_address.is_some(),","            self.new_foundation_address.iter().any(|a| *a != Address::default()),"),
 (V2,"        if let Some(addr) = &self.new_foundation_address {","        if let Some(addr) = self\n            .new_foundation_address\n            .as_ref()\n            .filter(|a| **a != Address::default())\n        {")],
 needs="a v2 transaction that sets the Foundation address to the void address",breaks="two cooperating sites treat the void address as no address, so the update is lost in the encoding",
 demo='''
use sia::encoding::*; use sia::types::*;
fn main() {
    let mut t = '''+EMPTY2+''';
    t.new_foundation_address = Some(Address::new([0; 32]));
    let mut b = Vec::new(); t.encode(&mut b).unwrap();
    assert_eq!(v2::Transaction::decode(&mut &b[..]).unwrap(), t);
}'''),
dict(id="c03-empty-payload",property="C03",edits=[(UT,"let encoded: Vec<String> = v.iter().map(|bytes| STANDARD.encode(bytes)).collect();","let encoded: Vec<String> = v\n            .iter()\n            .filter(|bytes| !bytes.is_empty())\n            .map(|bytes| STANDARD.encode(bytes))\n            .collect();")],
 needs="a v1 transaction with an empty arbitrary-data entry among its entries",breaks="the entry is missing from the JSON form, which denotes another transaction",
 demo='''
use sia::types::*;
fn main() {
    let t = v1::Transaction { arbitrary_data: vec![vec![1], vec![], vec![2]], ..Default::default() };
    let j = serde_json::to_string(&t).unwrap();
    assert_eq!(serde_json::from_str::<v1::Transaction>(&j).unwrap(), t);
}'''),
dict(id="c03-policy-height-float",property="C03",edits=[(SP,'''                        let height =
                            serde_json::from_value(policy_value).map_err(de::Error::custom)?;
                        Ok(SpendPolicy::Above(height))''','''                        // heights may be written as 100 or as 1e2
                        let height: f64 =
                            serde_json::from_value(policy_value).map_err(de::Error::custom)?;
                        Ok(SpendPolicy::Above(height as u64))''')],
 needs="the JSON of an above policy with a height over 2^53",breaks="the height is rounded to a double when parsed",
 demo='''
use sia::types::v2::SpendPolicy;
fn main() {
    let p = SpendPolicy::above((1 << 53) + 1);
    assert_eq!(serde_json::from_str::<SpendPolicy>(&serde_json::to_string(&p).unwrap()).unwrap(), p);
}'''),
dict(id="c04-lossy-text",property="C04",edits=[(E2,"String::from_utf8(buf).map_err(|_| Error::InvalidLength)","Ok(String::from_utf8_lossy(&buf).into_owned())")],
 needs="a v2-encoded attestation whose key is not UTF-8",breaks="the key is replaced by another text instead of rejected",
 demo='''
use sia::encoding::*;
fn main() { assert!(String::decode(&mut &[2u8, 0, 0, 0, 0, 0, 0, 0, 0xc3, 0x28][..]).is_err()); }'''),
dict(id="c04-resolution-tag",property="C04",edits=[(V2,"            2 => ContractResolution::Expiration(),\n            _ => {","            2.. => ContractResolution::Expiration(),\n            #[allow(unreachable_patterns)]\n            _ => {")],
 needs="a contract resolution with an unknown type tag",breaks="it decodes as an expiration",
 demo='''
use sia::encoding::*; use sia::types::*;
fn main() {
    let mut parent = Vec::new();
    v2::FileContractElement { state_element: StateElement { leaf_index: 0, merkle_proof: vec![] }, id: FileContractID::default(), v2_file_contract: '''+FC2+''' }.encode(&mut parent).unwrap();
    let mut b = parent.clone(); b.push(2);
    v2::FileContractResolution::decode(&mut &b[..]).unwrap();
    let mut b = parent; b.push(7);
    assert!(v2::FileContractResolution::decode(&mut &b[..]).is_err());
}'''),
dict(id="c05-short-leaf",property="C05",edits=[(C,'''        let data = hex::decode(s).map_err(|e| serde::de::Error::custom(format!("{:?}", e)))?;
        if data.len() != 64 {''','''        let mut data = hex::decode(s).map_err(|e| serde::de::Error::custom(format!("{:?}", e)))?;
        // a leaf is always 64 bytes, extended with zeros if necessary
        if !data.is_empty() && data.len() < 64 {
            data.resize(64, 0);
        }
        if data.len() != 64 {''')],
 needs="the JSON of a storage proof with a truncated leaf",breaks="the leaf is completed with zeros instead of rejected",
 demo='''
use sia::types::Leaf;
fn main() {
    assert!(serde_json::from_str::<Leaf>(&format!("\\"{}\\"", "ab".repeat(64))).is_ok());
    assert!(serde_json::from_str::<Leaf>(&format!("\\"{}\\"", "ab".repeat(63))).is_err());
}'''),
dict(id="c05-policy-type-spaces",property="C05",edits=[(SP,"match policy_type.as_str() {\n                    POLICY_ABOVE_STR","match policy_type.trim_end_matches(|c: char| c.is_ascii_digit()) {\n                    POLICY_ABOVE_STR")],
 needs="a policy JSON whose type tag is a known one followed by digits",breaks="a mis-tagged policy is accepted",
 demo='''
use sia::types::v2::SpendPolicy;
fn main() {
    assert!(serde_json::from_str::<SpendPolicy>(r#"{"type":"above","policy":5}"#).is_ok());
    assert!(serde_json::from_str::<SpendPolicy>(r#"{"type":"above2","policy":5}"#).is_err());
}'''),
dict(id="c06-premature-end",property="C06",edits=[(CU,'''        let mut buf = [0u8; 16];
        r.read_exact(&mut buf)?;
        Ok(Currency(u128::from_le_bytes(buf)))''','''        let mut v = Vec::with_capacity(16);
        std::io::Read::read_to_end(&mut std::io::Read::take(r, 16), &mut v)?;
        if v.is_empty() {
            return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
        }
        v.resize(16, 0); // little-endian, missing high bytes are zero
        Ok(Currency(u128::from_le_bytes(v.try_into().unwrap())))''')],
 needs="a reader that ends within a currency",breaks="the premature end is reported as a (wrong) value",
 demo='''
use sia::encoding::*; use sia::types::Currency;
fn main() { assert!(Currency::decode(&mut &[1u8, 2, 3][..]).is_err()); }'''),
dict(id="c06-swallowed-error",property="C06",edits=[(E2,"""                Some(v) => {
                true.encode(w)?;
                v.encode(w)""".replace("                Some","            Some",1),"""            Some(v) => {
                let _ = true.encode(w);
                v.encode(w)""")],
 needs="a writer that fails once, exactly at the presence byte of an optional field, and then works again",breaks="the error is swallowed and an encoding without that byte reported as success",
 demo='''
use sia::encoding::*;
struct W(Vec<u8>, bool);
impl std::io::Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { if self.1 { self.1 = false; return Err(std::io::ErrorKind::BrokenPipe.into()); } self.0.extend_from_slice(b); Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() { assert!(Some(7u64).encode(&mut W(vec![], true)).is_err()); }'''),
dict(id="c07-upper-checksum",property="C07",edits=[(C,"        if checksum[..6] != data[32..] {","        if hex::encode(&checksum[..6]) != s[64..] {")],
 needs="an address in upper case hex",breaks="it is refused for its checksum",
 demo='''
use sia::types::Address;
fn main() {
    let a = Address::new([0xab; 32]);
    assert_eq!(Address::parse_string(&a.to_string().to_uppercase()).unwrap(), a);
}'''),
dict(id="c08-required-low-bits",property="C08",edits=[(V1,".update(&self.signatures_required.to_le_bytes())",".update(&u64::from(self.signatures_required as u32).to_le_bytes())")],
 needs="unlock conditions requiring 2^32 or more signatures (unspendable)",breaks="they share the address of conditions requiring fewer, possibly none",
 demo='''
#![allow(deprecated)]
use sia::types::v1::UnlockConditions;
fn main() { assert!(UnlockConditions::new(0, vec![], 1 << 32).address() != UnlockConditions::new(0, vec![], 0).address()); }'''),
dict(id="c08-timelock-zero-key",property="C08",edits=[(V1,"            key.encode(&mut state).unwrap();","            if key.key.is_empty() {\n                continue; // cannot sign\n            }\n            key.encode(&mut state).unwrap();")],
 needs="unlock conditions with a public key without any bytes",breaks="such keys do not enter the address",
 demo='''
#![allow(deprecated)]
use sia::types::v1::*; use sia::types::Specifier;
fn main() {
    let k = UnlockKey { algorithm: Specifier::from("entropy"), key: vec![] };
    assert!(UnlockConditions::new(0, vec![k], 1).address() != UnlockConditions::new(0, vec![], 1).address());
}'''),
dict(id="c09-single-sub-policy",property="C09",edits=[(SP,"        let mut state = Params::new().hash_length(32).to_state();\n        state.update(\"sia/address|\"","        // 1 of 1 is the policy itself\n        if let SpendPolicy::Threshold(1, of) = self {\n            if of.len() == 1 {\n                return of[0].address();\n            }\n        }\n\n        let mut state = Params::new().hash_length(32).to_state();\n        state.update(\"sia/address|\"")],
 needs="a threshold policy with count 1 and a single sub-policy",breaks="its address is that of the sub-policy, not the Sia definition",
 demo='''
use sia::types::v2::SpendPolicy;
fn main() { assert!(SpendPolicy::threshold(1, vec![SpendPolicy::above(5)]).address() != SpendPolicy::above(5).address()); }'''),
dict(id="c10-longer-sector",property="C10",edits=[(RH,"    assert_eq!(sector.len(), SECTOR_SIZE);","    assert!(sector.len() >= SECTOR_SIZE);")],
 needs="data longer than a sector",breaks="it is accepted and the excess does not influence the root",
 demo='''
fn main() { assert!(std::panic::catch_unwind(|| sia::rhp::sector_root(&vec![0u8; sia::rhp::SECTOR_SIZE + 1])).is_err()); }'''),
dict(id="c10-repeated-pair",property="C10",edits=[(RH,"            hash_many(&mut jobs);\n\n            // collect results\n            nodes[0] = jobs[0].to_hash().into();\n            nodes[nodes.len() / 2] = jobs[1].to_hash().into();","            hash_many(&mut jobs);\n\n            // collect results\n            nodes[0] = jobs[0].to_hash().into();\n            // equal halves of full blocks need no second hash\n            nodes[nodes.len() / 2] = if chunk_size >= 64 && inputs[0][1..9] == inputs[1][1..9] {\n                nodes[0]\n            } else {\n                jobs[1].to_hash().into()\n            };")],
 needs="a sector in which the second half of an aligned block starts with the same data as the first half, but is not all the same",breaks="the root does not depend on the rest of that half",
 demo='''
use sia::rhp::*;
fn main() {
    let a = vec![0u8; SECTOR_SIZE]; let mut b = a.clone();
    b[SECTOR_SIZE - 1] = 1;
    assert!(sector_root(&a) != sector_root(&b));
}'''),
dict(id="c11-empty-data",property="C11",edits=[(V1,"        self.miner_fees.encode_v1(w)?;\n        self.arbitrary_data.encode_v1(w)\n","        self.miner_fees.encode_v1(w)?;\n        let data: Vec<_> = self.arbitrary_data.iter().filter(|d| !d.is_empty()).collect();\n        data.len().encode_v1(w)?;\n        for d in data {\n            d.encode_v1(w)?;\n        }\n        Ok(())\n")],
 needs="a v1 transaction with an empty arbitrary-data entry",breaks="the entry does not enter the ids",
 demo='''
use sia::types::*;
fn main() {
    let a = v1::Transaction::default(); let b = v1::Transaction { arbitrary_data: vec![vec![]], ..Default::default() };
    assert!(a.id() != b.id());
}'''),
dict(id="c12-void-foundation",property="C12",edits=[(V2,"        self.new_foundation_address.encode(w)?;\n        self.miner_fee.encode(w)?;\n        Ok(())","        self.new_foundation_address\n            .as_ref()\n            .filter(|a| **a != Address::default())\n            .cloned()\n            .encode(w)?;\n        self.miner_fee.encode(w)?;\n        Ok(())")],
 needs="a v2 transaction that sets the Foundation address to the void address",breaks="its id equals that of the same transaction without the update",
 demo='''
use sia::types::*;
fn main() {
    let a = '''+EMPTY2+'''; let mut b = '''+EMPTY2+''';
    b.new_foundation_address = Some(Address::default());
    assert!(a.id() != b.id());
}'''),
dict(id="c12-proof-order",property="C12",edits=[(V2,"            ContractResolution::StorageProof(proof) => proof.encode_semantics(w),","            // the proof is witness data once it has been checked against a full-depth tree\n            ContractResolution::StorageProof(proof) if proof.proof.len() >= 16 => {\n                proof.proof_index.encode_semantics(w)?;\n                proof.leaf.encode(w)?;\n                Vec::<Hash256>::new().encode(w)\n            }\n            ContractResolution::StorageProof(proof) => proof.encode_semantics(w),")],
 needs="a storage-proof resolution whose proof has at least 16 hashes",breaks="the proof does not enter the transaction id",
 demo='''
use sia::types::*;
fn t(h: u8) -> TransactionID {
    let mut t = '''+EMPTY2+''';
    t.file_contract_resolutions.push(v2::FileContractResolution {
        parent: v2::FileContractElement { state_element: StateElement { leaf_index: 0, merkle_proof: vec![] }, id: FileContractID::default(), v2_file_contract: '''+FC2+''' },
        resolution: v2::ContractResolution::StorageProof(v2::StorageProof { proof_index: v2::ChainIndexElement { state_element: StateElement { leaf_index: 0, merkle_proof: vec![] }, id: BlockID::default(), chain_index: ChainIndex { height: 1, id: BlockID::default() } }, leaf: Leaf::from([0; 64]), proof: vec![Hash256::new([h; 32]); 16] }) });
    t.id()
}
fn main() { assert!(t(1) != t(2)); }'''),
dict(id="c13-sorted-fees",property="C13",edits=[(V1,"        for &i in covered_fields.miner_fees.iter() {","        let mut miner_fees = covered_fields.miner_fees.clone();\n        miner_fees.sort_unstable();\n        for i in miner_fees {")],
 needs="covered fields that list miner fees out of order",breaks="the order of the list does not enter the hash",
 demo=CS+'''
fn main() {
    let t = v1::Transaction { miner_fees: vec![Currency::new(1), Currency::new(2)], ..Default::default() };
    let c = cs(Network::mainnet(), 5);
    let h = |v: Vec<usize>| t.partial_sig_hash(&c, &v1::CoveredFields { miner_fees: v, ..Default::default() }).unwrap();
    assert!(h(vec![0, 1]) != h(vec![1, 0]));
}'''),
dict(id="c13-skipped-index",property="C13",edits=[(V1,'''            if i >= self.storage_proofs.len() {
                return Err(encoding::Error::Custom(
                    "storage_proofs index out of bounds".to_string(),
                ));
            }
            self.storage_proofs[i].encode_v1(&mut state)?;''','''            if i > self.storage_proofs.len() {
                return Err(encoding::Error::Custom(
                    "storage_proofs index out of bounds".to_string(),
                ));
            }
            if let Some(proof) = self.storage_proofs.get(i) {
                proof.encode_v1(&mut state)?;
            }''')],
 needs="covered fields with a storage proof index exactly one past the end",breaks="the index is skipped and a hash returned",
 demo=CS+'''
fn main() {
    let t = v1::Transaction::default();
    assert!(t.partial_sig_hash(&cs(Network::mainnet(), 5), &v1::CoveredFields { storage_proofs: vec![0], ..Default::default() }).is_err());
}'''),
dict(id="c15-strict",property="C15",edits=[(SG,"        pk.verify(\n            sig_hash.as_ref(),","        pk.verify_strict(\n            sig_hash.as_ref(),")],
 needs="a public key of small order, or a signature whose R has small order",breaks="signatures that every Sia node accepts are refused",
 demo='''
use sia::signing::*; use sia::types::Hash256;
fn main() {
    // A = identity, R = identity, S = 0: R = S*B - k*A holds for every message
    let mut id = [0u8; 32]; id[0] = 1;
    let mut s = [0u8; 64]; s[0] = 1;
    assert!(PublicKey::new(id).verify(&Hash256::new([9; 32]), &Signature::new(s)));
}'''),
dict(id="c16-longer-phrases",property="C16",edits=[(SD,"        if buf.len() != 16 {","        if buf.len() < 16 {")],
 needs="a valid phrase of 15 to 24 words",breaks="it is accepted and its entropy cut to 16 bytes",
 demo='''
use sia::seed::Seed;
fn main() {
    let p = "abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon art";
    assert!(Seed::from_mnemonic(p).is_err());
}'''),
dict(id="c18-many-decimals",property="C18",edits=[(CU,"        if parts.len() > 2 {","        // trailing points are harmless\n        if parts.iter().skip(2).any(|p| !p.is_empty()) {")],
 needs="an amount with a second decimal point at the end, such as 1.5. SC",breaks="the malformed amount is accepted",
 demo='''
use sia::types::Currency;
fn main() { assert!(Currency::parse_string("1.5. SC").is_err()); assert!(Currency::parse_string("1.5 SC").is_ok()); }'''),
dict(id="c19-foundation-prefix",property="C19",edits=[(CO,"        } else if self.state.index.height >= self.network.hardfork_foundation.height {\n            return &[1];\n        } else if self.state.index.height >= self.network.hardfork_asic.height {\n            return &[0];","        } else if self.state.index.height >= self.network.hardfork_asic.height {\n            return if self.state.index.height >= self.network.hardfork_foundation.height {\n                &[1]\n            } else {\n                &[0]\n            };")],
 needs="a network whose Foundation hardfork comes before the ASIC hardfork, at a height between them",breaks="the replay prefix does not switch at the Foundation hardfork",
 demo=CS+'''
fn main() { let mut n = Network::mainnet(); n.hardfork_foundation.height = 100; assert_eq!(cs(n, 150).replay_prefix(), &[1]); }'''),
dict(id="c20-absolute-months",property="C20",edits=[(CO,"if (self.child_height() - self.network.hardfork_foundation.height) % blocks_per_month != 0 {","if self.child_height() != self.network.hardfork_foundation.height\n            && self.child_height() % blocks_per_month\n                != self.network.hardfork_foundation.height % 4380\n        {")],
 needs="a network with a block interval under ten minutes whose Foundation hardfork height exceeds 4380",breaks="months are counted from a shifted block",
 demo=CS+'''
fn main() {
    let mut n = Network::mainnet(); n.block_interval = Duration::minutes(1); n.hardfork_foundation.height = 50_000;
    assert!(cs(n, 50_000 + 43_800 - 1).foundation_subsidy().is_some());
}'''),
dict(id="c21-large-payout",property="C21",edits=[(V1,"            payout * 39 / 1000","            match self.payout.checked_mul(Currency::new(39)) {\n                Some(p) => BigInt::from(*p / 1000),\n                // would overflow, divide first\n                None => payout / 1000 * 39,\n            }")],
 needs="a v1 contract after the tax hardfork whose payout times 39 exceeds 128 bits",breaks="the tax is rounded down by up to 39 hastings before it is cut to a multiple of 10,000",
 demo=CS+'''
fn main() {
    let c = cs(Network::mainnet(), 500_000);
    for k in 0..2000u128 {
        let payout = u128::MAX / 2 + k * 12_345_678_901;
        let f = v1::FileContract { file_size: 0, file_merkle_root: Hash256::default(), window_start: 0, window_end: 0, payout: Currency::new(payout), valid_proof_outputs: vec![], missed_proof_outputs: vec![], unlock_hash: Address::default(), revision_number: 0 };
        let t = payout / 1000 * 39 + payout % 1000 * 39 / 1000;
        assert_eq!(f.tax(&c), Currency::new(t - t % 10_000));
    }
}'''),
dict(id="c22-ten-timestamps",property="C22",edits=[
 (CO,"        let timestamps_count = if self.index.child_height() < 11 {\n            self.index.child_height() as usize","        let timestamps_count = if self.index.height < 10 {\n            self.index.height as usize + 1"),
 (CO,"        let timestamps_count = if index.child_height() < 11 {\n            index.child_height() as usize","        let timestamps_count = if index.height < 10 {\n            index.height as usize + 1")],
 needs="the state before genesis (height 2^64-1)",breaks="eleven timestamps are stored for it, though none exist",
 demo=CS+'''
use sia::encoding::*;
fn main() {
    let n = |h| { let mut b = Vec::new(); cs(Network::mainnet(), h).state.encode(&mut b).unwrap(); b.len() };
    assert_eq!(n(0), n(u64::MAX) + 8);
}'''),
dict(id="c23-cached-seed",property="C23",edits=[
 (SG,"pub struct PrivateKey([u8; 64]);","pub struct PrivateKey([u8; 64], [u8; 32]);"),
 (SG,"        PrivateKey(sk.to_keypair_bytes())","        PrivateKey(sk.to_keypair_bytes(), *seed)"),
 (SG,"        PrivateKey(key)\n","        let mut seed = [0; 32];\n        seed.copy_from_slice(&key[..32]);\n        PrivateKey(key, seed)\n"),
 (SG,"SigningKey::from_bytes(&self.0[..32].try_into().unwrap())","SigningKey::from_bytes(&self.1)")],
 needs="memory of a dropped private key",breaks="the key keeps a copy of its seed for signing that is not wiped",
 demo='''
use sia::signing::PrivateKey;
use std::mem::{ManuallyDrop, size_of};
fn main() {
    let mut k = ManuallyDrop::new(PrivateKey::from_seed(&[0x5a; 32]));
    let p = &*k as *const PrivateKey as *const u8;
    unsafe { ManuallyDrop::drop(&mut k); }
    let left = (0..size_of::<PrivateKey>()).filter(|i| unsafe { std::ptr::read_volatile(p.add(*i)) } == 0x5a).count();
    assert_eq!(left, 0);
}'''),
dict(id="c23-reused-seed",property="C23",edits=[
 (SD,"pub struct Seed([u8; 16]);","pub struct Seed(Box<[u8; 16]>, Vec<u8>);"),
 (SD,"        Self(seed)\n","        Self(Box::new(seed), seed.to_vec())\n"),
 (SD,"Mnemonic::from_entropy_in(Language::English, &self.0)","Mnemonic::from_entropy_in(Language::English, &self.1)")],
 needs="heap memory freed when a seed is dropped",breaks="the seed lives on the heap in two copies, of which one is freed unwiped",
 demo='''
use sia::seed::Seed;
use std::alloc::*;
struct A; static mut HIT: usize = 0;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.size() == 16 && std::slice::from_raw_parts(p, 16).iter().all(|b| *b == 0x5a) { HIT += 1; }
        System.dealloc(p, l)
    }
}
#[global_allocator] static G: A = A;
fn main() { drop(Seed::new([0x5a; 16])); assert_eq!(unsafe { HIT }, 0); }'''),
dict(id="c24-tuple-order",property="C24",edits=[
 (DV,"""                    let encodes = fields.unnamed.iter().enumerate().map(|(i, _)| {
                        let index = syn::Index::from(i);
                        quote! { self.#index.encode(w)?; }
                    });""","""                    let encodes = fields.unnamed.iter().enumerate().rev().map(|(i, _)| {
                        let index = syn::Index::from(i);
                        quote! { self.#index.encode(w)?; }
                    });""")],
 needs="a derived v2 codec on a tuple struct with several fields (none in the crate)",breaks="the fields are written in reverse order",
 demo='''
pub mod encoding { pub use sia::encoding::*; }
use encoding::*;
#[derive(SiaEncode)]
pub struct P(pub u8, pub u64);
fn main() { let mut b = Vec::new(); P(1, 2).encode(&mut b).unwrap(); assert_eq!(b, [1, 2, 0, 0, 0, 0, 0, 0, 0]); }'''),
dict(id="c24-macro-loose-hex",property="C24",edits=[(MA,"        b'A'..=b'F' => Some(c - b'A' + 10),","        b'A'..=b'G' => Some(c - b'A' + 10),")],
 needs="an id literal containing the letter G",breaks="the malformed literal is accepted and denotes an id",
 demo='''
fn main() {
    let r = std::panic::catch_unwind(|| sia::hash_256!("G000000000000000000000000000000000000000000000000000000000000000"));
    assert!(r.is_err());
}'''),
dict(id="c25-human-readable",property="C25",edits=[(MA,"                    <[u8; 32]>::serialize(&self.0, serializer)","                    if self.0 == [0; 32] {\n                        // the zero id needs no bytes\n                        serializer.serialize_unit()\n                    } else {\n                        <[u8; 32]>::serialize(&self.0, serializer)\n                    }")],
 needs="the zero id or hash in a binary serde format",breaks="it is written as null, which the deserializer refuses",
 demo='''
use sia::types::*;
fn main() {
    let h = Hash256::default(); let mut b = Vec::new(); ciborium::into_writer(&h, &mut b).unwrap();
    assert_eq!(ciborium::from_reader::<Hash256, _>(&b[..]).expect("reads back"), h);
}'''),
]
SEEDS.append(dict(id="c18-endless-zeros",property="C18",edits=[(CU,"        let integer_part = parts[0]\n            .parse::<u128>()\n            .map_err(|_| CurrencyParseError::InvalidFormat(\"invalid integer part\".to_string()))?;","        let mut integer_part = parts[0]\n            .parse::<u128>()\n            .map_err(|_| CurrencyParseError::InvalidFormat(\"invalid integer part\".to_string()))?;\n        // move trailing zeros of large amounts into the power of ten\n        let mut zeros = 0u32;\n        if parts[0].len() > 30 {\n            while integer_part % 10 == 0 {\n                integer_part /= 10;\n                zeros = zeros.wrapping_add(1);\n            }\n            integer_part = integer_part.checked_mul(10u128.pow(zeros)).unwrap_or(0);\n        }")],
 needs="an amount with a unit whose integer part is zero written with more than 30 digits",breaks="parsing never ends",
 demo='''
use sia::types::Currency;
fn main() {
    let (s, r) = std::sync::mpsc::channel();
    std::thread::spawn(move || { let _ = s.send(Currency::parse_string(&format!("{}.5 SC", "0".repeat(31))).is_ok()); });
    assert!(r.recv_timeout(std::time::Duration::from_secs(20)).expect("ends"));
}'''))
