import runpy,os
G=runpy.run_path(os.path.join(os.path.dirname(__file__),"seeds2.py"))
for k in "CS EMPTY2 V2 V1 SP CU C E2 E1 CO SG SD UT MK RH DV MA WK FC2".split(): globals()[k]=G[k]
SEEDS=[
dict(id="c10-stale-root",property="C10",edits=[
 (RH,'''    let mut tree_hashes = vec![Hash256::default(); SECTOR_SIZE / SEGMENT_SIZE];
''','''    // uploads ask for the root of the same buffer several times in a row
    thread_local! {
        static LAST: std::cell::RefCell<Option<(usize, Hash256, Hash256)>> =
            const { std::cell::RefCell::new(None) };
    }
    let fingerprint: Hash256 = params
        .to_state()
        .update(&sector[..SEGMENT_SIZE * 16])
        .update(&sector[SECTOR_SIZE - SEGMENT_SIZE * 16..])
        .finalize()
        .into();
    let key = sector.as_ptr() as usize;
    if let Some((k, f, root)) = LAST.with(|l| *l.borrow()) {
        if k == key && f == fingerprint {
            return root;
        }
    }

    let mut tree_hashes = vec![Hash256::default(); SECTOR_SIZE / SEGMENT_SIZE];
'''),
 (RH,'''    // hash last two nodes into roots
    sum_node(
        &params,
        &tree_hashes[0],
        &tree_hashes[tree_hashes.len() / 2],
    )
''','''    // hash last two nodes into roots
    let root = sum_node(
        &params,
        &tree_hashes[0],
        &tree_hashes[tree_hashes.len() / 2],
    );
    LAST.with(|l| *l.borrow_mut() = Some((key, fingerprint, root)));
    root
''')],needs="the root of one buffer asked twice, with a change in the middle of the buffer in between",breaks="the second root is that of the old contents",
 demo='''
use sia::rhp::*;
fn main() {
    let mut s = vec![0u8; SECTOR_SIZE];
    let a = sector_root(&s);
    s[SECTOR_SIZE / 2 + 5] = 1;
    assert!(sector_root(&s) != a);
}'''),
dict(id="c10-pooled-scratch",property="C10",edits=[
 (RH,'''    let mut tree_hashes = vec![Hash256::default(); SECTOR_SIZE / SEGMENT_SIZE];
''','''    // one scratch tree per thread instead of a fresh 2 MiB allocation per sector
    thread_local! {
        static SCRATCH: std::cell::UnsafeCell<Vec<Hash256>> =
            std::cell::UnsafeCell::new(vec![Hash256::default(); SECTOR_SIZE / SEGMENT_SIZE]);
    }
    let tree_hashes: &mut Vec<Hash256> = SCRATCH.with(|s| unsafe { &mut *s.get() });
''')],needs="several sectors hashed from within a rayon pool, so that a thread starts a second sector while it waits for parts of its first",breaks="the two calls overwrite each other's tree and return wrong roots",
 demo='''
use sia::rhp::*;
use rayon::prelude::*;
fn main() {
    let want: Vec<_> = (0..24u8).map(|i| { let mut s = vec![i; SECTOR_SIZE]; s[0] = 255 - i; sector_root(&s) }).collect();
    for _ in 0..4 {
        let got: Vec<_> = (0..24u8).into_par_iter().map(|i| { let mut s = vec![i; SECTOR_SIZE]; s[0] = 255 - i; sector_root(&s) }).collect();
        assert!(got == want);
    }
}'''),
dict(id="c15-remembered",property="C15",edits=[
 (SG,'''        pk.verify(
            sig_hash.as_ref(),
            &ED25519Signature::from_bytes(signature.as_ref()),
        )
        .is_ok()
''','''        // a block is usually verified right after its transactions were
        static LAST: std::sync::Mutex<Option<([u8; 32], [u8; 64])>> = std::sync::Mutex::new(None);
        let key = (self.0, signature.0);
        if *LAST.lock().unwrap() == Some(key) {
            return true;
        }
        let valid = pk
            .verify(
                sig_hash.as_ref(),
                &ED25519Signature::from_bytes(signature.as_ref()),
            )
            .is_ok();
        if valid {
            *LAST.lock().unwrap() = Some(key);
        }
        valid
''')],needs="a genuine signature verified, then the same signature over another hash",breaks="the second verification succeeds",
 demo='''
use sia::signing::*; use sia::types::Hash256;
fn main() {
    let k = PrivateKey::from_seed(&[7; 32]);
    let s = k.sign_hash(&Hash256::new([1; 32]));
    assert!(k.public_key().verify(&Hash256::new([1; 32]), &s));
    assert!(!k.public_key().verify(&Hash256::new([2; 32]), &s));
}'''),
dict(id="c16-derivation-cache",property="C16",edits=[
 (SD,'''        let seed: Hash256 = params
            .to_state()
            .update(entropy.as_ref())
            .update(&index.to_le_bytes())
            .finalize()
            .into();
''','''        thread_local! {
            static LAST: std::cell::RefCell<Option<([u8; 8], u64, Hash256)>> =
                const { std::cell::RefCell::new(None) };
        }
        let mut tag = [0; 8];
        tag.copy_from_slice(&self.0[..8]);
        if let Some((t, i, seed)) = LAST.with(|l| *l.borrow()) {
            if t == tag && i == index {
                return seed.into();
            }
        }
        let seed: Hash256 = params
            .to_state()
            .update(entropy.as_ref())
            .update(&index.to_le_bytes())
            .finalize()
            .into();
        LAST.with(|l| *l.borrow_mut() = Some((tag, index, seed)));
''')],needs="the same key index derived from two seeds that begin with the same 8 bytes",breaks="the second wallet gets the first wallet's key",
 demo='''
use sia::seed::Seed;
fn main() {
    let mut e = [9u8; 16];
    let a = Seed::new(e).private_key(3).public_key();
    e[12] ^= 1;
    let b = Seed::new(e).private_key(3).public_key();
    assert!(a != b);
}'''),
dict(id="c11-stale-bytes",property="C11",edits=[
 (V1,'''        let mut state = Params::new().hash_length(32).to_state();
        state.update(prefix.as_bytes());
        self.encode_no_sigs(&mut state).unwrap();
        state.update(&(i as u64).to_le_bytes());
''','''        // every output of a transaction hashes the same bytes
        thread_local! {
            static LAST: std::cell::RefCell<(usize, usize, Vec<u8>)> =
                const { std::cell::RefCell::new((0, 0, Vec::new())) };
        }
        let mut state = Params::new().hash_length(32).to_state();
        state.update(prefix.as_bytes());
        let key = (self as *const Self as usize, self.siacoin_outputs.len());
        LAST.with(|l| {
            let mut l = l.borrow_mut();
            if i == 0 || (l.0, l.1) != key {
                *l = (key.0, key.1, Vec::new());
                self.encode_no_sigs(&mut l.2).unwrap();
            }
            state.update(&l.2);
        });
        state.update(&(i as u64).to_le_bytes());
''')],needs="a transaction that is changed in place between two derivations of ids of its later outputs",breaks="the ids are those of the transaction before the change",
 demo='''
use sia::types::*;
fn main() {
    let mut t = v1::Transaction::default();
    t.arbitrary_data.push(vec![1]);
    let a = t.siacoin_output_id(1);
    t.arbitrary_data[0][0] = 2;
    assert!(t.siacoin_output_id(1) != a);
}'''),
dict(id="c13-narrow-key-index",property="C13",edits=[(V1,"        public_key_index.encode_v1(&mut state)?;\n","        (public_key_index as u32).encode_v1(&mut state)?;\n")],
 needs="a public key index of 2^32 or more",breaks="the hash is that of the index modulo 2^32",
 demo=None),
dict(id="c13-repeated-index",property="C13",edits=[(V1,'''        for &i in covered_fields.arbitrary_data.iter() {
''','''        for (n, &i) in covered_fields.arbitrary_data.iter().enumerate() {
            if covered_fields.arbitrary_data[..n].contains(&i) {
                continue; // already covered
            }
''')],needs="a signature that covers the same arbitrary data twice",breaks="the repetition is left out of the hash",demo=None),
dict(id="c12-index-width",property="C12",edits=[(C,'''        state.update(prefix.as_ref());
        state.update(self.as_ref());
        state.update(&(i as u64).to_le_bytes());
''','''        state.update(prefix.as_ref());
        state.update(self.as_ref());
        state.update(&(i as u16 as u64).to_le_bytes());
''')],needs="an output index of 65536 or more",breaks="the output shares its id with another one",
 demo='''
use sia::types::*;
fn main() {
    let id = TransactionID::new([3; 32]);
    assert!(id.v2_siacoin_output_id(1) != id.v2_siacoin_output_id(65537));
}'''),
dict(id="c11-proof-output-index",property="C11",edits=[(C,'''        state.update(&(valid as u8).to_le_bytes());
        state.update(&(i as u64).to_le_bytes());
''','''        state.update(&(valid as u8).to_le_bytes());
        state.update(&(i.min(u8::MAX as usize) as u64).to_le_bytes());
''')],needs="a contract with more than 256 proof outputs",breaks="outputs 255 and up share one id",
 demo='''
use sia::types::*;
fn main() {
    let id = FileContractID::new([3; 32]);
    assert!(id.valid_output_id(255) != id.valid_output_id(256));
}'''),
dict(id="c19-pre-genesis-maturity",property="C19",edits=[(CO,"        self.child_height() + self.network.maturity_delay\n","        self.state.index.height + self.network.maturity_delay + 1\n")],
 needs="the state before the genesis block",breaks="the maturity height overflows",
 demo='''
use sia::consensus::*; use sia::types::*;
fn main() {
'''+CS.strip()+'''
    let mut cs = cs;
    cs.state.index.height = u64::MAX;
    assert_eq!(cs.maturity_height(), cs.network.maturity_delay);
}''' if False else None),
dict(id="c14-renewal-signatures",property="C14",edits=[(V2,"        self.new_contract.encode_semantics(w)?;\n","        self.new_contract.encode(w)?;\n")],
 needs="a renewal whose new contract is already signed",breaks="the renewal's hash depends on the signatures of the new contract",demo=None),
dict(id="c06-lost-flush",property="C06",edits=[(C,'''    fn encode_v1<W: std::io::Write>(&self, w: &mut W) -> encoding::Result<()> {
        self.parent_id.encode(w)?;
''','''    fn encode_v1<W: std::io::Write>(&self, w: &mut W) -> encoding::Result<()> {
        // blocks are many small fields
        let w = &mut std::io::BufWriter::new(w);
        self.parent_id.encode(w)?;
''')],needs="a block encoded to a writer that fails",breaks="the error of the last flush is lost and the encoding reports success",
 demo='''
use sia::encoding::*; use sia::types::*;
struct Bad;
impl std::io::Write for Bad {
    fn write(&mut self, _: &[u8]) -> std::io::Result<usize> { Err(std::io::Error::other("full")) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let b = Block { parent_id: BlockID::default(), nonce: 0, timestamp: time::OffsetDateTime::UNIX_EPOCH, miner_payouts: vec![], transactions: vec![] };
    assert!(b.encode_v1(&mut Bad).is_err());
}'''),
dict(id="c04-read-ahead",property="C04",edits=[(CO,'''        let index = ChainIndex::decode(r)?;
''','''        let r = &mut std::io::BufReader::with_capacity(512, r);
        let index = ChainIndex::decode(r)?;
''')],needs="a state decoded from a stream that holds something after it",breaks="the decoder takes bytes that belong to the next value",demo=None),
dict(id="c04-text-prealloc",property="C04",edits=[(E2,'''        let buf = Vec::<u8>::decode(r)?;
        String::from_utf8(buf)''','''        let mut buf = vec![0u8; usize::decode(r)?];
        r.read_exact(&mut buf)?;
        String::from_utf8(buf)''')],needs="a text whose length prefix is far larger than the input",breaks="decoding allocates whatever the input asks for and can take the process down",
 demo='''
use sia::encoding::*;
fn main() { assert!(String::decode(&mut &[0xffu8, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f][..]).is_err()); }'''),
dict(id="c17-rem-zero",property="C17",edits=[(CU,"        Self(self.0 % rhs.0)\n","        Self(self.0.checked_rem(rhs.0).unwrap_or(self.0))\n")],
 needs="the remainder of a division by a zero amount",breaks="an answer is made up instead of refused",
 demo='''
use sia::types::Currency;
fn main() { assert!(std::panic::catch_unwind(|| Currency::new(5) % Currency::new(0)).is_err()); }'''),
dict(id="c18-comma",property="C18",edits=[(CU,".find(|c: char| !c.is_ascii_digit() && c != '.')",".find(|c: char| !c.is_ascii_digit() && c != '.' && c != ',')"),
 (CU,"let parts: Vec<&str> = value.split('.').collect();","let parts: Vec<&str> = value.split(['.', ',']).collect();")],
 needs="an amount with a thousands separator",breaks="1,000 SC is one siacoin",
 demo='''
use sia::types::Currency;
fn main() { assert!(Currency::parse_string("1,000 SC").is_err()); }'''),
dict(id="c22-zero-root",property="C22",edits=[(CO,".filter(|(i, _)| has_tree_at_height(&self.num_leaves, *i))",".filter(|(i, root)| {\n                has_tree_at_height(&self.num_leaves, *i) && **root != Hash256::default()\n            })")],
 needs="an accumulator with a tree whose root is all zeros",breaks="the tree is missing from the JSON, which cannot be read back",
 demo='''
use sia::consensus::ElementAccumulator;
fn main() {
    let mut e = ElementAccumulator::default();
    e.num_leaves = 3;
    e.trees[0] = [1; 32].into();
    let j = serde_json::to_string(&e).unwrap();
    assert_eq!(serde_json::from_str::<ElementAccumulator>(&j).unwrap(), e);
}'''),
dict(id="c21-tax-boundary",property="C21",edits=[(V1,"let tax = if cs.child_height() < cs.network.hardfork_tax.height {","let tax = if cs.state.index.height < cs.network.hardfork_tax.height {")],
 needs="a contract in the first block of the tax hardfork, of a payout where the two formulas differ",breaks="the old formula is used one block too long",demo=None),
dict(id="c24-private-fields",property="C24",edits=[(DV,'''                    let encodes = fields.named.iter().map(|f| {
                        let name = &f.ident;
                        quote! { self.#name.encode_v1(enc)?; }
                    });
''','''                    let encodes = fields.named.iter().filter_map(|f| match f.vis {
                        syn::Visibility::Inherited => None,
                        _ => {
                            let name = &f.ident;
                            Some(quote! { self.#name.encode_v1(enc)?; })
                        }
                    });
''')],needs="a struct with a private field that derives the v1 encoding",breaks="the field is left out of the encoding",demo=None),
dict(id="c25-unknown-length",property="C25",edits=[(UT,"let mut seq = serializer.serialize_seq(Some(11))?;","let mut seq = serializer.serialize_seq(None)?;")],
 needs="a chain state written in a format that needs the length of a sequence beforehand",breaks="the state cannot be written",demo=None),
dict(id="c19-anagami-window",property="C19",edits=[(CO,"                require_height: 2016 + 288,","                require_height: 2016 + 144,")],
 needs="the anagami network between its v2 heights",breaks="v2 is required 144 blocks early",
 demo='''
use sia::consensus::Network;
fn main() { let n = Network::anagami(); assert_eq!(n.hardfork_v2.require_height - n.hardfork_v2.allow_height, 288); }'''),
dict(id="c20-genesis-year",property="C20",edits=[(CO,"let blocks = if self.child_height() == self.network.hardfork_foundation.height {","let blocks = if self.state.index.height < self.network.hardfork_foundation.height {")],
 needs="a network whose Foundation hardfork is at its genesis block",breaks="the first subsidy covers a month instead of a year",demo=None),
dict(id="c05-trimmed-key",property="C05",edits=[(SG,'''        let s = s.strip_prefix(Self::PREFIX).ok_or(Error::custom(format!(''','''        let s = s.trim().strip_prefix(Self::PREFIX).ok_or(Error::custom(format!(''')],
 needs="the JSON of a public key surrounded by white space",breaks="a text that denotes no key is accepted",
 demo='''
use sia::signing::PublicKey;
fn main() {
    let j = format!("\\"ed25519:{} \\"", "ab".repeat(32));
    assert!(serde_json::from_str::<PublicKey>(&j).is_err());
}'''),
dict(id="c09-wide-threshold",property="C09",edits=[(SP,"            for policy in of {\n                state.update(&[POLICY_OPAQUE_PREFIX]);","            for policy in of.iter().take(u8::MAX as usize / 2) {\n                state.update(&[POLICY_OPAQUE_PREFIX]);")],
 needs="a threshold policy of 128 or more sub-policies",breaks="the address does not commit to the later sub-policies",demo=None),
dict(id="c08-key-prefix",property="C08",edits=[(V1,"            key.encode(&mut state).unwrap();\n","            key.algorithm.encode(&mut state).unwrap();\n            key.key.iter().take(64).copied().collect::<Vec<u8>>().encode(&mut state).unwrap();\n")],
 needs="an unlock key longer than 64 bytes",breaks="the address does not commit to the rest of the key",demo=None),
]
SEEDS=[s for s in SEEDS]
FCM='''
fn fc(cap: u64) -> v2::FileContract { '''+FC2.replace("capacity: 1","capacity: cap")+''' }
'''
M='fn main() {\n'
DEMOS={
"c13-narrow-key-index":CS+M+'''
    let c = cs(Network::mainnet(), 500_000);
    let t = v1::Transaction::default();
    let h = |i: u64| t.whole_sig_hash(&c, &Hash256::default(), i, 0).unwrap();
    assert!(h(1) != h(1 + (1 << 32)));
}''',
"c13-repeated-index":CS+M+'''
    let c = cs(Network::mainnet(), 500_000);
    let t = v1::Transaction { arbitrary_data: vec![vec![1], vec![2]], ..Default::default() };
    let h = |v: &[usize]| t.partial_sig_hash(&c, &v1::CoveredFields { arbitrary_data: v.to_vec(), ..Default::default() }).unwrap();
    assert!(h(&[0, 0]) != h(&[0]));
}''',
"c19-pre-genesis-maturity":CS+M+'''
    let c = cs(Network::mainnet(), u64::MAX);
    assert_eq!(c.maturity_height(), 144);
}''',
"c14-renewal-signatures":CS+FCM+M+'''
    let c = cs(Network::mainnet(), 500_000);
    let mut r = v2::FileContractRenewal { final_revision: fc(1), new_contract: fc(2), renter_rollover: Currency::zero(), host_rollover: Currency::zero(),
        renter_signature: sia::signing::Signature::new([0; 64]), host_signature: sia::signing::Signature::new([0; 64]) };
    let h = r.sig_hash(&c);
    r.new_contract.host_signature = sia::signing::Signature::new([1; 64]);
    assert!(r.sig_hash(&c) == h);
}''',
"c04-read-ahead":CS+'use sia::encoding::*;\n'+M+'''
    let mut b = Vec::new();
    cs(Network::mainnet(), 500_000).state.encode(&mut b).unwrap();
    7u64.encode(&mut b).unwrap();
    let mut r = &b[..];
    State::decode(&mut r).unwrap();
    assert_eq!(u64::decode(&mut r).unwrap(), 7);
}''',
"c21-tax-boundary":CS+M+'''
    let c = cs(Network::mainnet(), 20_999);
    let f = v1::FileContract { file_size: 0, file_merkle_root: Hash256::default(), window_start: 0, window_end: 0, payout: Currency::new(7_777_777_777_777_777_777_777_777_777), valid_proof_outputs: vec![], missed_proof_outputs: vec![], unlock_hash: Address::default(), revision_number: 0 };
    let t = 7_777_777_777_777_777_777_777_777_777u128 * 39 / 1000;
    assert_eq!(f.tax(&c), Currency::new(t - t % 10_000));
}''',
"c24-private-fields":'''
mod encoding { pub use sia::encoding::*; }
use sia::encoding::*;
mod m {
    use super::encoding::*;
    #[derive(V1SiaEncode, V1SiaDecode)] pub struct S { pub a: u8, b: u8 }
}
fn main() {
    let s = <m::S as V1SiaDecodable>::decode_v1(&mut &[1u8, 2][..]).unwrap();
    let mut b = Vec::new(); s.encode_v1(&mut b).unwrap();
    assert_eq!(b, [1, 2]);
}'''.replace("mod m {","mod m {\n    use crate as root; #[allow(unused)] use root as _;"),
"c20-genesis-year":CS+M+'''
    let mut n = Network::mainnet(); n.hardfork_foundation.height = 0;
    assert_eq!(cs(n, u64::MAX).foundation_subsidy().unwrap().value, Currency::siacoins(30_000 * 52_560));
}''',
"c25-unknown-length":CS+M+'''
    bincode::serialize(&cs(Network::mainnet(), 500_000).state).unwrap();
}''',
"c09-wide-threshold":'''
use sia::types::v2::SpendPolicy;
fn main() {
    let p = |last| SpendPolicy::threshold(1, (0..200).map(|i| SpendPolicy::above(if i == 199 { last } else { i })).collect());
    assert!(p(1000).address() != p(1001).address());
}''',
"c08-key-prefix":'''
use sia::types::v1::*;
fn main() {
    let a = |x| { let mut key = vec![1; 100]; key[99] = x; UnlockConditions::new(0, vec![UnlockKey { algorithm: ALGORITHM_ED25519, key }], 1).address() };
    assert!(a(1) != a(2));
}''',
}
for s in SEEDS:
    if s.get("demo") is None and s["id"] in DEMOS: s["demo"]=DEMOS[s["id"]]
DROPPED={"c13-narrow-key-index","c12-index-width","c14-renewal-signatures","c19-anagami-window","c25-unknown-length"} # the tests catch them, or the property allows them
SEEDS=[s for s in SEEDS if s.get("demo") and s["id"] not in DROPPED]
for s in SEEDS:
    if s["id"]=="c10-pooled-scratch": s["deps"]='rayon = "1"\n'
    if s["id"]=="c25-unknown-length": s["deps"]='bincode = "1"\n'
