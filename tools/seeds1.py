CS='''
use sia::consensus::*; use sia::types::*; use time::{Duration, OffsetDateTime};
fn cs(network: Network, height: u64) -> ChainState {
    ChainState { network, state: State {
        index: ChainIndex { height, id: BlockID::default() }, prev_timestamps: [OffsetDateTime::UNIX_EPOCH; 11],
        depth: BlockID::default(), child_target: BlockID::default(), siafund_pool: Currency::zero(), oak_time: Duration::seconds(0),
        oak_target: BlockID::default(), foundation_primary_address: Address::new([7; 32]), foundation_failsafe_address: Address::new([8; 32]),
        total_work: Work::from(&[0; 32]), difficulty: Work::from(&[0; 32]), oak_work: Work::from(&[0; 32]), elements: ElementAccumulator::default(), attestations: 0 } }
}
'''
V2="sia/src/types/v2.rs";V1="sia/src/types/v1.rs";SP="sia/src/types/spendpolicy.rs";CU="sia/src/types/currency.rs";C="sia/src/types/common.rs"
E2="sia/src/encoding/v2.rs";E1="sia/src/encoding/v1.rs";CO="sia/src/consensus.rs";SG="sia/src/signing.rs";SD="sia/src/seed.rs";UT="sia/src/types/utils.rs"
EMPTY2='v2::Transaction { siacoin_inputs: vec![], siacoin_outputs: vec![], siafund_inputs: vec![], siafund_outputs: vec![], file_contracts: vec![], file_contract_revisions: vec![], file_contract_resolutions: vec![], attestations: vec![], arbitrary_data: vec![], new_foundation_address: None, miner_fee: Currency::zero() }'
SEEDS=[
dict(id="c01-fee-low-bits",property="C01",edits=[
 (V2,"            self.miner_fee != Currency::zero(),\n        ]","            *self.miner_fee as u64 != 0,\n        ]"),
 (V2,"        if self.miner_fee != Currency::zero() {\n            self.miner_fee.encode(w)?;","        if *self.miner_fee as u64 != 0 {\n            self.miner_fee.encode(w)?;")],
 needs="a v2 transaction whose miner fee is a non-zero multiple of 2^64 hastings",
 breaks="presence of the miner fee is judged by its low 64 bits at two cooperating sites, so such a fee is dropped from the encoding and decodes as zero",
 demo='''
use sia::encoding::*; use sia::types::*;
fn main() {
    let mut t = '''+EMPTY2+''';
    t.miner_fee = Currency::new(3 << 64);
    let mut b = Vec::new(); t.encode(&mut b).unwrap();
    assert_eq!(v2::Transaction::decode(&mut &b[..]).unwrap(), t);
}'''),
dict(id="c02-currency-words",property="C02",edits=[(CU,"""        let currency_buf = self.to_be_bytes();
        let i = currency_buf
            .iter()
            .enumerate()
            .find(|&(_index, &value)| value != 0)
            .map_or(16, |(index, _value)| index); // 16 if all bytes are 0
        currency_buf[i..].encode_v1(w)""","""        // the high and the low word, without leading zeros
        let words = [(self.0 >> 64) as u64, self.0 as u64];
        let mut buf = Vec::with_capacity(16);
        for word in words {
            let skip = (word.leading_zeros() / 8) as usize;
            buf.extend_from_slice(&word.to_be_bytes()[skip..]);
        }
        buf.encode_v1(w)""")],
 needs="a v1-encoded currency of at least 2^64 hastings whose low 64-bit word has a leading zero byte (one amount in 256)",breaks="the zero byte in the middle is dropped and the amount reads back as another one",
 demo='''
use sia::encoding::*; use sia::types::*;
fn main() {
    for v in [0u128, 1 << 63, u128::MAX, 1 << 64, (7 << 64) + 5] {
        let mut b = Vec::new(); Currency::new(v).encode_v1(&mut b).unwrap();
        assert_eq!(Currency::decode_v1(&mut &b[..]).expect("decodes"), Currency::new(v));
    }
}'''),
dict(id="c03-resolution-key-order",property="C03",edits=[
 (V2,'"resolution" => resolution_value = Some(map.next_value()?),','''"resolution" => {
                            // the type decides how to read the resolution
                            if resolution_type.is_none() {
                                return Err(serde::de::Error::missing_field("type"));
                            }
                            resolution_value = Some(map.next_value()?)
                        }''')],
 needs="a contract resolution whose JSON has the key resolution before type",breaks="parsing depends on key order",
 demo='''
use sia::types::*;
fn main() {
    let p = r#"{"stateElement":{"leafIndex":0,"merkleProof":[]},"id":"0000000000000000000000000000000000000000000000000000000000000000","v2FileContract":{"capacity":0,"filesize":0,"fileMerkleRoot":"0000000000000000000000000000000000000000000000000000000000000000","proofHeight":0,"expirationHeight":0,"renterOutput":{"value":"0","address":"000000000000000000000000000000000000000000000000000000000000000089eb0d6a8a69"},"hostOutput":{"value":"0","address":"000000000000000000000000000000000000000000000000000000000000000089eb0d6a8a69"},"missedHostValue":"0","totalCollateral":"0","renterPublicKey":"ed25519:0000000000000000000000000000000000000000000000000000000000000000","hostPublicKey":"ed25519:0000000000000000000000000000000000000000000000000000000000000000","revisionNumber":0,"renterSignature":"00000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000","hostSignature":"00000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000"}}"#;
    let a: v2::FileContractResolution = serde_json::from_str(&format!(r#"{{"parent":{p},"type":"expiration","resolution":{{}}}}"#)).unwrap();
    let b: v2::FileContractResolution = serde_json::from_str(&format!(r#"{{"resolution":{{}},"type":"expiration","parent":{p}}}"#)).unwrap();
    assert!(a == b);
}'''),
dict(id="c04-siafund-truncated",property="C04",edits=[
 (C,'''            value: Currency::decode_v1(r)?
                .try_into()
                .map_err(|_| encoding::Error::Custom("invalid value".to_string()))?,''','''            value: *Currency::decode_v1(r)? as u64,''')],
 needs="a v1 siafund output whose value has more than 8 bytes",breaks="the value is truncated to 64 bits instead of rejected",
 demo='''
use sia::encoding::*; use sia::types::*;
fn main() {
    let mut b = Vec::new();
    Currency::new((1 << 64) + 5).encode_v1(&mut b).unwrap(); b.extend_from_slice(&[0; 32]); Currency::zero().encode_v1(&mut b).unwrap();
    assert!(SiafundOutput::decode_v1(&mut &b[..]).is_err());
}'''),
dict(id="c04-policy-version",property="C04",edits=[(SP,"        if policy_version != 1 {","        if policy_version < 1 {")],
 needs="an encoded policy with a version byte of 2 or more",breaks="unknown policy versions are accepted as version 1",
 demo='''
use sia::encoding::*; use sia::types::*;
fn main() {
    for v in [0u8, 2, 3, 255] { assert!(v2::SpendPolicy::decode(&mut &[v, 1, 0, 0, 0, 0, 0, 0, 0, 0][..]).is_err()); }
    assert!(v2::SpendPolicy::decode(&mut &[1u8, 1, 0, 0, 0, 0, 0, 0, 0, 0][..]).is_ok());
}'''),
dict(id="c05-overlong-address",property="C05",edits=[
 (C,"        if s.len() != 76 {\n            return Err(HexParseError::InvalidLength);\n        }\n\n        let mut data = [0u8; 38];\n        hex::decode_to_slice(s, &mut data)",
    "        if s.len() < 76 {\n            return Err(HexParseError::InvalidLength);\n        }\n\n        let mut data = [0u8; 38];\n        hex::decode_to_slice(&s.as_bytes()[..76], &mut data)")],
 needs="an address text followed by further characters",breaks="over-long addresses are accepted",
 demo='''
use sia::types::*;
fn main() {
    let a = Address::new([3; 32]).to_string();
    assert!(Address::parse_string(&a).is_ok());
    for x in ["0", " ", "zz", "00"] { assert!(Address::parse_string(&format!("{a}{x}")).is_err()); }
}'''),
dict(id="c06-short-read",property="C06",edits=[
 (E2,"        let mut arr = [0u8; N];\n        r.read_exact(&mut arr)?;\n        Ok(arr)",
  "        let mut arr = [0u8; N];\n        if r.read(&mut arr)? < N {\n            return Err(Error::InvalidLength);\n        }\n        Ok(arr)")],
 needs="a reader that delivers a fixed-size field in more than one piece, or is interrupted",breaks="byte arrays are read with a single read call",
 demo='''
use sia::encoding::*; use sia::types::*;
struct One<'a>(&'a [u8]);
impl std::io::Read for One<'_> { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { let n = b.len().min(1).min(self.0.len()); b[..n].copy_from_slice(&self.0[..n]); self.0 = &self.0[n..]; Ok(n) } }
fn main() {
    let h = Hash256::new([9; 32]);
    let mut b = Vec::new(); h.encode(&mut b).unwrap();
    assert_eq!(Hash256::decode(&mut One(&b)).expect("fragmented input"), h);
}'''),
dict(id="c06-short-write",property="C06",edits=[
 (CU,"        w.write_all(&self.0.to_le_bytes())?;\n        Ok(())","        let _ = w.write(&self.0.to_le_bytes())?;\n        Ok(())")],
 needs="a writer that accepts fewer than 16 bytes at once",breaks="the rest of a currency is silently lost and success reported",
 demo='''
use sia::encoding::*; use sia::types::*;
struct Few(Vec<u8>);
impl std::io::Write for Few { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { let n = b.len().min(5); self.0.extend_from_slice(&b[..n]); Ok(n) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
fn main() {
    let mut f = Few(vec![]);
    Currency::new(u128::MAX).encode(&mut f).unwrap();
    assert_eq!(f.0, [0xff; 16]);
}'''),
dict(id="c07-short-checksum",property="C07",edits=[(C,"        if checksum[..6] != data[32..] {","        if checksum[..5] != data[32..37] {")],
 needs="an address text whose last checksum byte alone is wrong",breaks="the last checksum byte is not verified",
 demo='''
use sia::types::*;
fn main() {
    let a = Address::new([3; 32]).to_string();
    for i in 0..76 { let mut c: Vec<u8> = a.clone().into(); c[i] = if c[i] == b'0' { b'1' } else { b'0' }; assert!(Address::parse_string(std::str::from_utf8(&c).unwrap()).is_err(), "digit {i}"); }
}'''),
dict(id="c08-wide-conditions",property="C08",edits=[("sia/src/merkle.rs","        while i < 64 {\n            if self.has_tree_at_height(i) {","        while i < 8 {\n            if self.has_tree_at_height(i) {")],
 needs="unlock conditions with 254 or more public keys",breaks="trees above height 7 are left out of the root, so most keys do not influence the address",
 demo='''
use sia::types::*; use sia::types::v1::*;
fn uc(n: usize, first: u8) -> UnlockConditions { UnlockConditions::new(0, (0..n).map(|i| UnlockKey { algorithm: ALGORITHM_ED25519, key: vec![if i == 0 { first } else { i as u8 }; 32] }).collect(), 1) }
fn main() {
    for n in [1, 2, 3, 7, 100, 253, 254, 255, 256, 300] { assert!(uc(n, 0xaa).address() != uc(n, 0xbb).address(), "{n} keys: the first key does not matter"); }
}'''),
dict(id="c10-sparse-segments",property="C10",edits=[
 ("sia/src/rhp.rs","            for (j, input) in inputs.iter_mut().enumerate() {\n                input[0] = LEAF_HASH_PREFIX[0];\n                input[1..].copy_from_slice(",
  "            for (j, input) in inputs.iter_mut().enumerate() {\n                input[0] = LEAF_HASH_PREFIX[0];\n                let at = SEGMENT_SIZE * (i * 4 + j);\n                if sector[at..at + 8] == [0; 8] && sector[at + 56..at + 64] == [0; 8] {\n                    continue; // sparse segment\n                }\n                input[1..].copy_from_slice(")],
 needs="a sector with a segment that starts and ends with eight zero bytes but is not zero in between",breaks="such segments are hashed as zeros",
 demo='''
use sia::rhp::*;
fn main() {
    let mut d = vec![0u8; SECTOR_SIZE];
    let z = sector_root(&d);
    for i in [0usize, 7, 8, 30, 55, 56, 63] { d[64 * 1000 + i] = 1; assert!(sector_root(&d) != z, "byte {i} of a segment does not matter"); d[64 * 1000 + i] = 0; }
}'''),
dict(id="c13-siafund-replay",property="C13",edits=[
 (V1,'''                    "siafund_inputs index out of bounds".to_string(),
                ));
            }
            state.update(cs.replay_prefix());''','''                    "siafund_inputs index out of bounds".to_string(),
                ));
            }''')],
 needs="a partial signature that covers a siafund input, at a height past the ASIC hardfork",breaks="partial signatures over siafund inputs lack replay protection",
 demo=CS+'''
use sia::types::v1::*;
fn main() {
    let t = Transaction { siafund_inputs: vec![SiafundInput { parent_id: SiafundOutputID::default(), unlock_conditions: UnlockConditions::new(0, vec![], 0), claim_address: Address::new([0; 32]) }], ..Default::default() };
    let c = CoveredFields { siafund_inputs: vec![0], ..Default::default() };
    let h = |n| t.partial_sig_hash(&cs(Network::mainnet(), n), &c).unwrap();
    assert!(h(0) != h(200_000) && h(200_000) != h(400_000));
}'''),
dict(id="c13-prefix-boundary",property="C13",edits=[(CO,"        } else if self.state.index.height >= self.network.hardfork_foundation.height {","        } else if self.state.index.height > self.network.hardfork_foundation.height {")],
 needs="a signature made exactly at the Foundation hardfork height",breaks="the replay prefix switches one block late",
 demo=CS+'''
fn main() {
    let p = |h| cs(Network::mainnet(), h).replay_prefix().to_vec();
    assert_eq!((p(178_999), p(179_000), p(297_999), p(298_000), p(999_999), p(1_000_000)), (vec![], vec![0], vec![0], vec![1], vec![1], vec![2]));
}'''),
dict(id="c14-attestation-signature",property="C14",edits=[(V2,"        self.value.encode(w)?;\n        [0u8; 64].encode(w) // empty sig","        self.value.encode(w)?;\n        self.signature.encode(w)")],
 needs="an attestation that already carries a signature",breaks="the attestation signature hash covers the signature itself",
 demo=CS+'''
use sia::signing::*;
fn main() {
    let h = |s| v2::Attestation { public_key: PublicKey::new([1; 32]), key: "k".into(), value: vec![1], signature: Signature::new([s; 64]) }.sig_hash(&cs(Network::mainnet(), 2_000_000));
    assert_eq!(h(0), h(1));
}'''),
dict(id="c15-malleable-s",property="C15",edits=[
 (SG,'''        pk.verify(
            sig_hash.as_ref(),
            &ED25519Signature::from_bytes(signature.as_ref()),
        )''','''        // the top three bits of S carry no information
        let mut sig = *AsRef::<[u8; 64]>::as_ref(signature);
        sig[63] &= 0x1f;
        pk.verify(sig_hash.as_ref(), &ED25519Signature::from_bytes(&sig))''')],
 needs="a genuine signature with one of its top three bits set",breaks="altered, non-canonical signatures verify",
 demo='''
use sia::signing::*; use sia::types::*;
fn main() {
    let k = PrivateKey::from_seed(&[5; 32]); let h = Hash256::new([6; 32]); let s = k.sign_hash(&h);
    assert!(k.public_key().verify(&h, &s));
    for i in 0..512 { let mut b: [u8; 64] = *s.as_ref(); b[i / 8] ^= 1 << (i % 8); assert!(!k.public_key().verify(&h, &Signature::new(b)), "bit {i}"); }
}'''),
dict(id="c16-unchecked-phrase",property="C16",edits=[(SD,"        let m = Mnemonic::parse_in(Language::English, s)?;","        let m = Mnemonic::parse_in_normalized_without_checksum_check(Language::English, s)?;")],
 needs="a phrase of known words with a wrong checksum",breaks="mistyped phrases are accepted as another seed",
 demo='''
use sia::seed::*;
fn main() {
    let p = Seed::new([7; 16]).to_mnemonic();
    let mut w: Vec<&str> = p.split(' ').collect();
    w.swap(0, 11);
    assert!(Seed::from_mnemonic(&p).is_ok());
    let mut bad = 0;
    for x in ["abandon", "ability", "able", "about", "above", "absent", "absorb"] { w[3] = x; if Seed::from_mnemonic(&w.join(" ")).is_err() { bad += 1 } }
    assert!(bad >= 4);
}'''),
dict(id="c17-sum-wraps",property="C17",flag="--release",edits=[(CU,"        iter.fold(Currency::new(0), Add::add)","        Currency::new(iter.map(|c| c.0).sum())")],
 needs="a sum beyond 128 bits in a build without overflow checks",breaks="the sum wraps around in release builds",
 demo='''
use sia::types::*;
fn main() {
    let v = vec![Currency::new(u128::MAX - 1), Currency::new(1), Currency::new(5)];
    assert!(std::panic::catch_unwind(|| v.into_iter().sum::<Currency>()).is_err());
}'''),
dict(id="c18-unit-case",property="C18",edits=[(CU,'            "mS" => -3,','            "mS" | "ms" => -3,'),(CU,'            "MS" => 6,','            "MS" | "Ms" => 6,')],
 needs="an amount with the unit ms or Ms",breaks="unknown units that differ from a known one only in case are accepted",
 demo='''
use sia::types::*;
fn main() { for u in ["ms", "Ms", "sc", "ks", "ps", "h"] { assert!(Currency::parse_string(&format!("1{u}")).is_err(), "{u}"); } assert!(Currency::parse_string("1mS").is_ok()); }'''),
dict(id="c19-nonce-factor",property="C19",edits=[(CO,"        if self.child_height() < self.network.hardfork_asic.height {\n            return 1;","        if self.state.index.height < self.network.hardfork_asic.height {\n            return 1;")],
 needs="the chain state just before the ASIC hardfork block",breaks="the nonce factor switches one block late",
 demo=CS+'''
fn main() { let f = |h| cs(Network::mainnet(), h).nonce_factor(); assert_eq!((f(178_998), f(178_999), f(179_000)), (1, 1009, 1009)); }'''),
dict(id="c20-whole-minutes",property="C20",edits=[
 (CO,'''        (Duration::days(365).whole_nanoseconds()
            / 12
            / self.network.block_interval.whole_nanoseconds()) as u64''','''        (Duration::days(365).whole_minutes() / 12 / self.network.block_interval.whole_minutes())
            as u64''')],
 needs="a network whose block interval is not a whole number of minutes",breaks="the subsidy period is computed from whole minutes: wrong for such intervals, a division by zero below one minute",
 demo=CS+'''
fn main() {
    let mut n = Network::mainnet(); n.block_interval = Duration::seconds(90); n.hardfork_foundation.height = 10;
    let c = cs(n, 10 + 29200 - 1);
    assert!(c.foundation_subsidy().is_some());
    let mut n = Network::mainnet(); n.block_interval = Duration::seconds(10); n.hardfork_foundation.height = 10;
    assert!(cs(n, 10 + 262800 - 1).foundation_subsidy().is_some());
}'''),
dict(id="c21-split-tax",property="C21",edits=[
 (V2,"        let tax = (self.renter_output.value + self.host_output.value) / Currency::new(25); // 4%","        // 4%, without overflow of the sum\n        let tax = self.renter_output.value / Currency::new(25)\n            + self.host_output.value / Currency::new(25);")],
 needs="a v2 contract whose outputs both leave a remainder by 25 that together reach the next multiple of 250,000",breaks="the tax is rounded per output, so it is 10,000 hastings short",
 demo=CS+'''
use sia::signing::*;
fn main() {
    let o = |v| SiacoinOutput { value: Currency::new(v), address: Address::new([0; 32]) };
    let c = v2::FileContract { capacity: 1, filesize: 1, file_merkle_root: Hash256::default(), proof_height: 1, expiration_height: 2, renter_output: o(249_999), host_output: o(1), missed_host_value: Currency::zero(), total_collateral: Currency::zero(), renter_public_key: PublicKey::new([0; 32]), host_public_key: PublicKey::new([0; 32]), revision_number: 0, renter_signature: Signature::default(), host_signature: Signature::default() };
    assert_eq!(c.tax(&cs(Network::mainnet(), 5)), Currency::new(10_000));
}'''),
dict(id="c22-high-trees",property="C22",edits=[(CO,"    num_leaves & (1 << height) != 0\n}\n\n#[derive(PartialEq, Debug)]","    (*num_leaves as usize).wrapping_shr(height as u32 % 63) & 1 != 0\n}\n\n#[derive(PartialEq, Debug)]")],
 needs="an accumulator in which the presence of tree 63 differs from that of tree 0",breaks="the tree at height 63 is taken for the one at height 0",
 demo='''
use sia::consensus::*; use sia::encoding::*; use sia::types::*;
fn main() {
    let mut a = ElementAccumulator { num_leaves: 1 << 63, ..Default::default() }; a.trees[63] = Hash256::new([1; 32]);
    let mut b = Vec::new(); a.encode(&mut b).unwrap();
    assert_eq!(b.len(), 40); assert!(ElementAccumulator::decode(&mut &b[..]).unwrap() == a);
}'''),
dict(id="c22-extra-trees",property="C22",edits=[(CO,"        if inter.trees.len() != inter.num_leaves.count_ones() as usize {","        if inter.trees.len() < inter.num_leaves.count_ones() as usize {")],
 needs="an accumulator JSON with more trees than its leaf count has bits",breaks="surplus trees are dropped instead of the accumulator rejected",
 demo='''
use sia::consensus::*;
fn main() {
    let z = "0".repeat(64);
    for (n, t) in [(0u64, 1usize), (1, 2), (3, 3)] { let s = format!(r#"{{"numLeaves":{n},"trees":[{}]}}"#, vec![format!("\\"{z}\\""); t].join(",")); assert!(serde_json::from_str::<ElementAccumulator>(&s).is_err(), "{s}"); }
}'''),
dict(id="c24-unit-struct",property="C24",edits=[
 ("sia_derive/src/lib.rs",'''                Fields::Unit => quote! {},
            };
            quote! {
                #fields
                Ok(())
            }
        }
        Data::Enum(_) => panic!("enums not supported"),
        Data::Union(_) => panic!("unions not supported"),
    };

    let expanded = quote! {
        impl SiaEncodable for''','''                Fields::Unit => quote! { 0u8.encode(w)?; },
            };
            quote! {
                #fields
                Ok(())
            }
        }
        Data::Enum(_) => panic!("enums not supported"),
        Data::Union(_) => panic!("unions not supported"),
    };

    let expanded = quote! {
        impl SiaEncodable for'''),
 ("sia_derive/src/lib.rs",'''                Fields::Unit => quote! { Ok(Self) },
            };
            fields
        }
        Data::Enum(_) => panic!("enums not supported"),
        Data::Union(_) => panic!("unions not supported"),
    };

    let expanded = quote! {
        impl SiaDecodable for''','''                Fields::Unit => quote! { u8::decode(r).map(|_| Self) },
            };
            fields
        }
        Data::Enum(_) => panic!("enums not supported"),
        Data::Union(_) => panic!("unions not supported"),
    };

    let expanded = quote! {
        impl SiaDecodable for''')],
 needs="a unit struct with derived v2 codecs",breaks="a placeholder byte is written and read for it at two cooperating sites, so it round-trips but is not the concatenation of its fields",
 demo='''
mod encoding { pub use sia::encoding::*; }
use sia::encoding::*;
#[derive(Debug, PartialEq, SiaEncode, SiaDecode)] pub struct U;
#[derive(Debug, PartialEq, SiaEncode, SiaDecode)] pub struct S { pub a: u8, pub u: U, pub b: u8 }
fn main() { let mut b = Vec::new(); S { a: 1, u: U, b: 2 }.encode(&mut b).unwrap(); assert_eq!(b, [1, 2]); }'''),
dict(id="c07-optional-key-prefix",property="C07",edits=[(SG,'''        let s = s.strip_prefix(Self::PREFIX).ok_or(Error::custom(format!(
            "key must have prefix '{}'",
            Self::PREFIX
        )))?;''','''        let s = s.trim_start_matches(Self::PREFIX);''')],
 needs="a public key text without prefix, or with the prefix repeated",breaks="public keys without ed25519: are accepted",
 demo='''
use sia::signing::*;
fn main() {
    let h = "11".repeat(32);
    assert!(serde_json::from_str::<PublicKey>(&format!("\\"ed25519:{h}\\"")).is_ok());
    assert!(serde_json::from_str::<PublicKey>(&format!("\\"{h}\\"")).is_err());
    assert!(serde_json::from_str::<PublicKey>(&format!("\\"ed25519:ed25519:{h}\\"")).is_err());
}'''),
]
