//! The reference against published vectors. Runs before every check: a wrong oracle is an error of
//! the check (exit 2), never a violation.
use crate::ed;
use crate::model::*;
use crate::refhash::*;

fn a32(h: &str) -> [u8; 32] {
    unhex(h).unwrap().try_into().unwrap()
}
pub fn run() {
    let eq = |what: &str, got: String, want: &str| assert_eq!(got, want, "the reference is wrong: {what}");
    // RFC 7693 family (BLAKE2b-256), FIPS 180
    eq("blake2b of nothing", hex(&blake2b(b"")), "0e5751c026e543b2e8ab2eb06099daa1d1e5df47778f7787faab45cdf12fe3a8");
    eq("blake2b of abc", hex(&blake2b(b"abc")), "bddd813c634239723171ef3fee98579b94964e3bb1cb3e427262c8c068d52319");
    // RFC 8032, 7.1, tests 1 and 2
    let sk = a32("9d61b19deffd5a60ba844af492ec2cc44449c5697b326919703bac031cae7f60");
    eq("ed25519 key", hex(&ed::public(&sk)), "d75a980182b10ab7d54bfed3c964073a0ee172f3daa62325af021a68f707511a");
    eq("ed25519 signature", hex(&ed::sign(&sk, b"")), "e5564300c360ac729086e2cc806e828a84877f1eb8e5d974d873e065224901555fb8821590a33bacc61e39701cf9b46bd25bf5f0595bbe24655141438e7a100b");
    let sk2 = a32("4ccd089b28ff96da9db6c346ec114e0f5b8a319f35aba624da8cf6ed4fb8a6fb");
    let sig = ed::sign(&sk2, &[0x72]);
    eq("ed25519 signature", hex(&sig), "92a009a9f0d4cab8720e820b5f642540a2b27b5416503f8fb3762223ebdb69da085ac1e43e15996e458f3613d0f11d8c387b2eaeb4302aeeb00d291612bb0c00");
    assert_eq!(ed::verify(&ed::public(&sk2), &[0x72], &sig), Some(true));
    assert_eq!(ed::verify(&ed::public(&sk2), &[0x73], &sig), Some(false));
    // RFC 4648
    eq("base64", b64(b"fooba"), "Zm9vYmE=");
    assert_eq!(unb64("Zm9vYg==").as_deref(), Some(&b"foob"[..]));
    // values published by the reference node (core/types tests, also in this repository's unit tests)
    eq("void address", addr_text(&[0; 32]), "000000000000000000000000000000000000000000000000000000000000000089eb0d6a8a69");
    let pk = |b: &[u8]| {
        let mut k = [0u8; 32];
        k[..b.len()].copy_from_slice(b);
        Pol::Pk(Pk(k))
    };
    let t = 1_433_600_000;
    eq("policy address", addr_text(&pk(&[1, 2, 3]).address()), "55a7793237722c6df8222fd512063cb74228085ef1805c5184713648c159b919ac792fbad0e1");
    eq("policy address", addr_text(&Pol::Above(100).address()), "c2fba9b9607c800e80d9284ed0fb9a55737ba1bbd67311d0d9242dd6376bed0c6ee355e814fa");
    let nested = Pol::Thresh(2, vec![pk(&[1, 2, 3]), Pol::Above(100), Pol::Thresh(2, vec![pk(&[]), Pol::After(Ts(t))])]);
    eq("policy address", addr_text(&nested.address()), "30f516630280059c25ae92f3bf3c451be258ecd3249c43906e3d9dd9e86f2dc00ef5eeffc2c4");
    eq("transaction id", hex(&blake2b(&crate::sem::v1_no_sigs(&Tx1::gen(&mut crate::engine::Src::replay(Vec::new()))))), "b3633a1370a72002ae2a956d21e8d481c3a69e146633470cf625ecd83fdeaa24");
    // the standard address of the first key of a published seed: BIP-39, key derivation, Merkle root
    let ws: Vec<String> = "song renew capable taxi follow sword more hybrid laptop dance unfair poem".split(' ').map(String::from).collect();
    let seed = crate::props::sign::restore(&ws).expect("published phrase");
    let k = ed::public(&cat(&[&blake2b(&seed), &0u64.to_le_bytes()]));
    let uc = UC { timelock: 0, public_keys: vec![UKey { algorithm: Spec({ let mut a = [0; 16]; a[..7].copy_from_slice(b"ed25519"); a }), key: Blob(k.to_vec()) }], signatures_required: 1 };
    eq("seed address", addr_text(&uc_address(&uc)), "16e09f8dc8a100a03ba1f9503e4035661738d1bea0b6cdc9bb012d3cd25edaacfd780909e550");
    // the published root of an empty sector
    let mut h = cat(&[&[0], &[0; 64]]);
    for _ in 0..16 {
        h = cat(&[&[1], &h, &h]);
    }
    eq("sector root", hex(&h), "50ed59cecd5ed3ca9e65cec0797202091dbba45272dafa3faa4e27064eedd52c");
}
