import runpy,os
G=runpy.run_path(os.path.join(os.path.dirname(__file__),"seeds2.py"))
for k in "CS EMPTY2 V2 V1 SP CU C E2 E1 CO SG SD UT MK RH DV MA WK FC2".split(): globals()[k]=G[k]
SEEDS=[
dict(id="c26-unordered-policy",property="C26",edits=[
 (SP,'''/// order to spend a UTXO.
#[derive(Debug, PartialEq, Clone)]
pub enum SpendPolicy {''','''/// order to spend a UTXO.
#[derive(Debug, Clone)]
pub enum SpendPolicy {'''),
 (SP,'''#[derive(Debug, PartialEq, Error)]
pub enum ValidationError {''','''impl PartialEq for SpendPolicy {
    fn eq(&self, other: &Self) -> bool {
        use SpendPolicy::*;
        match (self, other) {
            (Above(a), Above(b)) => a == b,
            (After(a), After(b)) => a == b,
            (PublicKey(a), PublicKey(b)) => a == b,
            (Hash(a), Hash(b)) => a == b,
            (Opaque(a), Opaque(b)) => a == b,
            #[allow(deprecated)]
            (UnlockConditions(a), UnlockConditions(b)) => a == b,
            (Threshold(n, a), Threshold(m, b)) => {
                n == m
                    && a.len() == b.len()
                    && (a == b
                        // all of them are needed, in whatever order
                        || *n as usize == a.len() && a.iter().all(|p| b.contains(p)))
            }
            _ => false,
        }
    }
}

#[derive(Debug, PartialEq, Error)]
pub enum ValidationError {''')],needs="two all-of thresholds, possibly deep inside, with the same sub-policies in another order or multiplicity",breaks="policies with different addresses compare equal",
 demo='''
use sia::types::v2::SpendPolicy;
fn main() {
    let p = |a: u64, b: u64| SpendPolicy::Threshold(1, vec![SpendPolicy::Threshold(2, vec![SpendPolicy::Above(a), SpendPolicy::Above(b)])]);
    assert!(p(1, 2) == p(1, 2));
    assert!(p(1, 2) != p(2, 1));
}'''),
dict(id="c26-ephemeral-proof",property="C26",edits=[
 (C,'''#[derive(Debug, PartialEq, Serialize, Deserialize, SiaEncode, SiaDecode)]
#[serde(rename_all = "camelCase")]
pub struct StateElement {
    pub leaf_index: u64,
    pub merkle_proof: Vec<Hash256>,
}
''','''#[derive(Debug, Serialize, Deserialize, SiaEncode, SiaDecode)]
#[serde(rename_all = "camelCase")]
pub struct StateElement {
    pub leaf_index: u64,
    pub merkle_proof: Vec<Hash256>,
}

impl PartialEq for StateElement {
    fn eq(&self, other: &Self) -> bool {
        // elements that are not in the accumulator yet have no meaningful proof
        self.leaf_index == other.leaf_index
            && (self.leaf_index == u64::MAX || self.merkle_proof == other.merkle_proof)
    }
}
''')],needs="two elements with leaf index 2^64-1 and different proofs",breaks="elements, and transactions around them, with different contents compare equal",
 demo='''
use sia::types::*;
fn main() {
    let e = |i: u64, n: usize| StateElement { leaf_index: i, merkle_proof: vec![Hash256::default(); n] };
    assert!(e(1, 1) != e(1, 2));
    assert!(e(u64::MAX, 1) == e(u64::MAX, 1));
    assert!(e(u64::MAX, 1) != e(u64::MAX, 2));
}'''),
dict(id="c26-key-seed-half",property="C26",edits=[
 (SG,'''/// An ed25519 private key that can be used to sign a hash
#[derive(Debug, PartialEq, Clone)]
pub struct PrivateKey([u8; 64]);
''','''/// An ed25519 private key that can be used to sign a hash
#[derive(Debug, Clone)]
pub struct PrivateKey([u8; 64]);

impl PartialEq for PrivateKey {
    fn eq(&self, other: &Self) -> bool {
        // no early exit: the time must not depend on the keys
        let mut diff = 0u8;
        for (a, b) in self.0.chunks(8).zip(other.0.chunks(8)) {
            let a = a.iter().fold(0u8, |x, y| x ^ y);
            let b = b.iter().fold(0u8, |x, y| x ^ y);
            diff |= a ^ b;
        }
        diff == 0
    }
}
''')],needs="two keys whose differences cancel out within each group of eight bytes",breaks="different private keys compare equal",
 demo='''
use sia::signing::PrivateKey;
fn main() {
    let mut a = [7u8; 64];
    let x = PrivateKey::from(a);
    assert!(x == PrivateKey::from(a));
    a[3] ^= 1;
    assert!(x != PrivateKey::from(a));
    a[4] ^= 1;
    assert!(x != PrivateKey::from(a));
}'''),
]
