#!/usr/bin/env python3
# Regenerates properties.jsonl (single source of the property texts).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
E2="sia/src/encoding/v2.rs";E1="sia/src/encoding/v1.rs";C="sia/src/types/common.rs";V1="sia/src/types/v1.rs";V2="sia/src/types/v2.rs"
SP="sia/src/types/spendpolicy.rs";CU="sia/src/types/currency.rs";CO="sia/src/consensus.rs";SG="sia/src/signing.rs";SD="sia/src/seed.rs"
MA="sia/src/macros.rs";ME="sia/src/merkle.rs";RH="sia/src/rhp.rs";DE="sia_derive/src/lib.rs";WO="sia/src/types/work.rs";UT="sia/src/types/utils.rs";SPE="sia/src/types/specifier.rs"

p("C01","v2 binary encoding conforms to the Sia wire format and is lossless",
 "For every value of every type that has a v2 (Sia) binary encoding (timestamps in whole seconds), encoding it produces exactly the bytes the Sia v2 wire format prescribes (fields in order, 8-byte little-endian integers and lengths, 16-byte little-endian currencies, the transaction version byte and presence bitfield, policy version and type tags). Decoding those bytes yields an equal value and consumes exactly the bytes that were written, even when more data follows. No proper prefix of an encoding decodes successfully; a value the format cannot represent makes encoding fail instead of being silently altered.",
 ["inputs"],"all values of all v2-encodable types, including empty/absent fields, 255 sub-policies, extreme integers and currencies, values followed by further data",
 "Unit tests pin a handful of hand-written values (mostly zeros) per type; nothing explores field combinations, presence bits, nested policies, long vectors or boundary integers.",
 [E2,V2,SP,C,CO,WO,DE],[("derived field-order codec",DE),("transaction presence bitfield",V2),("policy codec",SP)],["encode","decode"])
p("C02","v1 binary encoding conforms to the Sia wire format and is lossless",
 "For every value of every type that has a v1 binary encoding, encoding it produces exactly the bytes the legacy Sia wire format prescribes (length-prefixed lists, currencies as minimal big-endian byte strings, siafund outputs as currency plus empty claim start, blocks with header then v1 transactions). Decoding those bytes yields an equal value and consumes exactly the bytes that were written, even when more data follows. No proper prefix of an encoding decodes successfully.",
 ["inputs"],"all values of all v1-encodable types",
 "Unit tests pin a few fixed values per type; the currency length classes, list lengths and field combinations are not explored.",
 [E1,V1,C,CU,WO,DE],[("v1 codec",E1),("currency v1 codec",CU),("derived field-order codec",DE)],["encode_v1","decode_v1"])
p("C03","JSON form is the documented one and round-trips losslessly",
 "For every value of every type with a JSON form, serialization yields the documented JSON object (camelCase keys, empty optional lists omitted, currencies and work as decimal strings, hashes/ids/signatures as hex, addresses with checksum, prefixed public keys, base64 payloads, RFC 3339 timestamps, tagged policies and resolutions). Parsing that JSON, with its keys in any order, yields an equal value. A value that the JSON form cannot represent makes serialization fail instead of panicking or being silently altered.",
 ["inputs"],"all values of all JSON-serializable types; all key orders and whitespace layouts",
 "Unit tests compare one JSON literal per type in one key order; optional-field combinations, policy nesting, extreme numbers and non-text algorithm names are never sampled.",
 [V1,V2,SP,C,CO,UT,CU,SG,MA,SPE],[("serde attributes and helper modules",UT),("hand-written policy and resolution (de)serializers",SP)],["serde_json::to_string","serde_json::from_str"])
p("C04","Decoding untrusted binary data is safe and exact",
 "Decoding any byte string as any v1- or v2-decodable type returns either an error or a value: it never panics, aborts, overflows the stack, or allocates memory out of proportion to the input actually supplied. It succeeds exactly when the bytes start with a well-formed encoding, and then the value is the one those bytes denote, and no byte beyond it is consumed. In particular out-of-range timestamps, durations, booleans, version bytes, tags, lengths, text that is not UTF-8 and integers too large for their type are rejected, never truncated or reinterpreted.",
 ["inputs"],"all byte strings (random, mutated valid encodings, hostile lengths, deep nesting) for all decodable types",
 "Unit tests only decode well-formed encodings; no malformed input is ever decoded.",
 [E2,E1,V2,SP,C,CO,CU,WO],[("length handling in list decoding",E2),("recursive policy decoding",SP),("timestamp decoding",E2)],["decode","decode_v1"])
p("C05","Parsing untrusted text and JSON is safe and exact",
 "Parsing any string or JSON document as any supported type returns an error or a value and never panics. When it succeeds, the value is exactly what the text denotes; malformed, truncated, over-long, out-of-range or mis-tagged text is rejected rather than coerced. Rendering an accepted value and parsing it again gives the same value.",
 ["inputs"],"all strings and JSON documents: random, and mutated well-formed documents",
 "Unit tests parse well-formed text only.",
 [C,MA,SG,V1,V2,SP,CO,UT,CU,WO,SD,SPE],[("text parsers",C),("id parser",MA),("JSON visitors",SP)],["parse_string","serde_json::from_str"])
p("C06","Encoding and decoding tolerate faulty and fragmenting I/O",
 "Encoding to a writer that accepts data in arbitrary small pieces or reports transient interruptions delivers exactly the bytes of the full encoding, and decoding from a reader that delivers data in arbitrary small pieces or reports transient interruptions yields the same value as from one buffer. If the writer or reader fails with a hard error at any point, the operation returns an error and never panics, and whatever was written before is a prefix of the full encoding; a failed or premature end is never reported as success.",
 ["inputs","fault_sequences"],"every encodable value x every fragmentation, interruption pattern and failure point of the stream",
 "All tests use an in-memory vector and slice, which never fail or fragment.",
 [E2,E1,CO,V2,SP,C,CU],[("error propagation through ?",E2),("state codec",CO)],["encode","decode","encode_v1","decode_v1"])
p("C07","Addresses, ids, keys and signatures: text form and checksum",
 "The text form of every address, id, hash, public key, signature, leaf and unlock key parses back to the same value, in upper or lower case hex. An address is rendered as its 32 bytes followed by the first 6 bytes of their BLAKE2b-256 hash, and any text whose checksum does not match, so in particular any single changed digit, is rejected. Ids and hashes accept an optional `prefix:`; public keys require `ed25519:`; unlock keys are `algorithm:hex`; text of the wrong length or with non-hex digits is rejected. Conversions from and to raw bytes keep every byte.",
 ["inputs"],"all 32/64-byte values, all single- and multi-character corruptions of their text",
 "Unit tests check a few literals and no corruption.",
 [C,MA,SG,V1,SPE],[("checksum",C),("id parser",MA)],["Display","parse_string","serde"])
p("C08","Unlock conditions address is the Merkle root of the conditions",
 "For unlock conditions with any number of public keys, the address equals the Merkle root, as used by every Sia implementation, of the leaves timelock, each public key in order, and required-signature count. Consequently conditions differing in any field or in key order have different addresses, and equal conditions equal addresses.",
 ["inputs"],"all unlock conditions: any timelock, any number, order and kind of keys, any required count",
 "Unit tests only use one or very few keys, so the accumulator never merges more than two levels.",
 [V1,ME],[("Merkle accumulator",ME),("address",V1)],["UnlockConditions::address"])
p("C09","Spend policy addresses are canonical and opaque-invariant",
 "The address of every spend policy equals the Sia definition: an opaque policy's address is the one it names, an unlock-conditions policy has the address of those conditions, and every other policy hashes a domain tag and its encoding with each direct sub-policy of a threshold replaced by its opaque address. Therefore replacing any sub-policy, at any depth, by the opaque policy of its address leaves the address unchanged, and changing the threshold count, the order or the content of sub-policies changes it. The threshold constructor refuses unlock conditions as a sub-policy.",
 ["inputs"],"all policy trees: any shape, depth, threshold counts 0-255, up to 255 children",
 "Unit tests compare a few fixed policies to golden addresses; no nested substitution.",
 [SP,V1],[("address",SP)],["SpendPolicy::address"])
p("C10","Sector root is the Merkle root of the sector's 64-byte segments",
 "For every 4 MiB sector, the sector root equals the Merkle root over its 65536 consecutive 64-byte segments with leaf prefix 0 and node prefix 1. It depends on every byte and on segment order, does not depend on the number of worker threads, and data of any other length is refused.",
 ["inputs","schedules"],"all sector contents, any thread-pool size",
 "The unit test and benchmark only use an all-zero or one patterned sector, for which misplaced segments are invisible.",
 [RH,ME],[("parallel leaf and node hashing",RH)],["rhp::sector_root"])
p("C11","v1 transaction and derived ids commit to everything but signatures",
 "A v1 transaction's id is the BLAKE2b-256 hash of its encoding without signatures, and the i-th siacoin output, siafund output and file contract ids, valid/missed proof output ids, miner, foundation and claim output ids are the Sia-defined hashes of their parent and index. Changing signatures never changes an id; changing anything else about the transaction, the index, or the kind of derived object changes it.",
 ["inputs"],"all v1 transactions, all parents, all indices and all pairs differing in one field",
 "Unit tests check one golden transaction and one index per kind.",
 [V1,C],[("encode_no_sigs / derive_child_id",V1),("derived ids",C)],["Transaction::id","*_output_id","file_contract_id"])
p("C12","v2 transaction and derived ids are non-malleable and domain separated",
 "A v2 transaction's id is the BLAKE2b-256 hash of its semantic content in the Sia-defined form: it does not change when satisfied policies, Merkle proofs, leaf indices or other parent-element data, or contract and renewal signatures change, and it does change when any output, input id, contract term, revision, resolution content, attestation, arbitrary data, foundation address or fee changes. Ids derived from transaction, contract, siafund-output and block ids are hashes under their own `sia/id/...|` tag, so objects of different kinds, parents or indices never share an id.",
 ["inputs"],"all v2 transactions and all pairs differing in one field; all parents, kinds and indices",
 "Unit tests check golden ids for one transaction and one index; nothing varies the witness data.",
 [V2,C],[("encode_semantics",V2),("v2 derived ids",C)],["v2::Transaction::id","TransactionID::v2_*_id","FileContractID::v2_*_id"])
p("C13","v1 signature hashes cover exactly the fields they claim",
 "The whole-transaction signature hash covers every part of a v1 transaction except its signatures, plus the parent id, key index and timelock; the partial signature hash covers exactly the elements the covered-fields lists select, in the order listed. Both mix in, per siacoin and siafund input, the replay-protection prefix for the chain height, so a signature does not carry over across the relevant hardforks. An index that is out of range yields an error, never a panic or a hash.",
 ["inputs"],"all transactions x chain states x covered fields (including repeated, unordered and out-of-range indices)",
 "Unit tests compute two golden hashes at one height each.",
 [V1,CO],[("whole_sig_hash, partial_sig_hash",V1),("replay_prefix",CO)],["whole_sig_hash","partial_sig_hash"])
p("C14","v2 signature hashes cover the semantics and are domain separated",
 "The input, contract, renewal and attestation signature hashes equal the Sia-defined hash of the kind's own tag, the replay prefix and the semantic content with signatures blanked. They never change when signatures, policies or proofs change, always change when signed content changes, and never coincide between kinds or across the v2 hardfork boundary.",
 ["inputs"],"all v2 transactions, contracts, renewals and attestations x chain states",
 "Unit tests hold one golden hash for a subset of kinds.",
 [V2,CO],[("sig_hash family",V2),("replay_prefix",CO)],["input_sig_hash","FileContract::sig_hash","FileContractRenewal::sig_hash","Attestation::sig_hash"])
p("C15","Signatures verify exactly when genuine",
 "A signature made by a private key over a hash verifies under that key's public key, signing is deterministic and standard Ed25519 (RFC 8032), and the key pair derives from its seed as Ed25519 prescribes. Verification fails for any other hash, any altered signature including non-canonical S, and any unrelated key. Verification under arbitrary public-key bytes returns true or false as Ed25519 prescribes and never panics.",
 ["inputs"],"all seeds, hashes, single-bit alterations, arbitrary 32-byte keys and 64-byte signatures",
 "Unit tests verify a couple of golden signatures; invalid keys and tampering are not tried.",
 [SG],[("sign_hash / verify",SG)],["PrivateKey::sign_hash","PublicKey::verify"])
p("C16","Recovery phrases and derived keys are faithful",
 "Every 16-byte seed renders as the standard 12-word English BIP-39 phrase and that phrase restores the same seed; a phrase with a wrong checksum, an unknown word or any length other than 12 words is rejected without panicking. The key at each index is the Ed25519 key whose seed is BLAKE2b(BLAKE2b(seed) || index), so keys at different indices or from different seeds differ.",
 ["inputs"],"all 16-byte seeds, all 64-bit indices, all phrases (valid of all BIP-39 lengths, corrupted, random)",
 "Unit tests use a few golden phrases and indices.",
 [SD,SG],[("from_mnemonic / to_mnemonic / private_key",SD)],["Seed"])
p("C17","Currency arithmetic is exact or refuses, never wraps",
 "Adding, subtracting, multiplying, dividing, taking remainders of and summing currency amounts, and converting whole siacoins, either give the mathematically exact integer result or refuse: the checked forms return none and the operators panic, in every build profile. No result ever wraps around; ordering and equality agree with the numeric value.",
 ["inputs","configurations"],"all pairs and lists of 128-bit amounts; builds with and without overflow checks",
 "Unit tests run only in the profile with overflow checks and use a few small values.",
 [CU],[("Add/Sub/Mul/Div/Sum and checked_*",CU)],["Currency operators"])
p("C18","Currency text is parsed to the exact amount",
 "Every amount renders to a string that parses back to it. A decimal number with a unit from pS to TS, or a whole number with H or no unit, parses to exactly that number times the unit when it is a whole number of hastings that fits 128 bits; anything else, i.e. too large, finer than one hasting, malformed or with an unknown unit, is rejected. Parsing never panics, wraps or rounds, in any build profile.",
 ["inputs","configurations"],"all strings, in particular all digit counts and units around the 128-bit and one-hasting limits; builds with and without overflow checks",
 "Unit tests parse about 25 well-formed amounts.",
 [CU],[("parse_string",CU),("Serialize/Deserialize",CU)],["Currency::parse_string","Display","JSON"])
p("C19","Consensus parameters follow the hardfork schedule at every height",
 "For every height and network, the block reward is the initial coinbase minus one siacoin per block, never below the minimum; outputs mature exactly the maturity delay after the child block; the nonce factor and replay prefix switch exactly at their hardfork heights and nowhere else. The built-in mainnet, zen and anagami networks carry the published consensus parameters.",
 ["inputs","configurations"],"all heights up to 2^40, in particular at and next to every hardfork boundary, on the built-in and arbitrary networks",
 "Unit tests only use fixed states.",
 [CO],[("ChainState",CO),("Network constants",CO)],["block_reward","maturity_height","nonce_factor","replay_prefix"])
p("C20","Foundation subsidy: right amount, block and recipient",
 "From the Foundation hardfork on, and only then, a subsidy is due exactly once every month's worth of blocks counted from the hardfork block. It is 30,000 SC for every block of the month, except that the hardfork block pays a full year's worth at once, and it goes to the Foundation's current primary address as recorded in the chain state.",
 ["inputs","configurations"],"all heights and networks (block intervals that divide a month), any current foundation address",
 "No test exercises the subsidy.",
 [CO],[("foundation_subsidy",CO)],["ChainState::foundation_subsidy"])
p("C21","File contract tax is exact and rounded to the siafund count",
 "The tax of a v1 contract is 3.9% of its payout (before the tax hardfork in the legacy double-precision form of 0.039, afterwards exactly), and that of a v2 contract 4% of the sum of its two outputs, truncated to whole hastings and then down to a multiple of the 10,000 siafunds. It never exceeds the payout and is computed without overflow or rounding error for every payout.",
 ["inputs","configurations"],"all payouts up to 2^128-1 and heights around the tax hardfork; builds with and without overflow checks",
 "Unit tests check a handful of golden payouts.",
 [V1,V2,CO,CU],[("FileContract::tax",V1),("v2 FileContract::tax",V2)],["tax"])
p("C22","Persisted chain state restores exactly",
 "A chain state written in binary or JSON form is restored to an equal state for every height, from before genesis onwards: exactly the timestamps that exist at that height (at most 11) and exactly the accumulator trees present in the leaf count are stored, in order. An accumulator whose tree list does not match its leaf count is rejected.",
 ["inputs"],"all chain states: heights 0-12 and up to the 64-bit limit, any leaf count, any element values",
 "Unit tests use two fixed states.",
 [CO,WO,C],[("State codec",CO),("ElementAccumulator codec",CO)],["State encode/decode, JSON","ElementAccumulator"],
 [("index.height","chain height; u64::MAX stands for the pre-genesis state","sia/src/consensus.rs")])
p("C23","Secrets are wiped from memory when dropped",
 "When a seed or private key, or any clone or collection of them, is dropped, the memory that held it no longer contains the secret, in debug and in optimized builds alike.",
 ["inputs","histories","configurations"],"all secrets and sequences of create, clone, move, replace and drop in boxes, vectors, options and maps; debug and optimized builds",
 "No test observes memory, and an optimizer may remove the clearing that a debug build performs.",
 [SG,SD],[("Drop for PrivateKey",SG),("Drop for Seed",SD)],["memory of dropped values"])
p("C24","Derived codecs and literal macros behave as declared",
 "For every struct the derive macros accept (named public fields, tuple, unit, nested), the derived v1 and v2 codecs write the fields' encodings in declaration order and nothing else, and read them back. The literal macros for addresses, hashes, ids and public keys denote the same value as parsing the text at run time, and refuse malformed literals.",
 ["programs"],"generated Rust programs: structs with any number, order, kind and nesting of supported fields; literals",
 "The derive crate has no tests of its own; the library only uses a few shapes.",
 [DE,MA],[("derive macros",DE),("literal macros",MA)],["generated programs"])
p("C25","Non-text serde formats round-trip",
 "For every value with a serde form, serializing to a binary self-describing serde format (CBOR) and back yields an equal value, in the same way as JSON does; the compact binary representation a type chooses for non-text formats is accepted by its own deserializer.",
 ["inputs"],"all values of all serde-serializable types",
 "Tests only use JSON, so the non-human-readable branches are never executed.",
 [MA,V1,SP,V2,C,CO],[("is_human_readable branches",MA)],["ciborium"])
p("C26","Values are equal exactly when their contents are; clones are faithful",
 "Two values of any public data type compare equal if and only if all their public contents are equal, in both directions and consistently for == and !=. A clone, or a value cloned over another one, has the same contents as its source and leaves the source unchanged. Rendering any value for debugging does not fail.",
 ["inputs"],"all pairs of values of every public data type, in particular pairs that differ in a single place; every type that can be cloned",
 "Tests compare a few values that differ widely or not at all, so a comparison or clone that skips one nested field goes unnoticed and also weakens every assert_eq in them.",
 [V1,SP,V2,CO,WO,CU,MA,SPE],[("PartialEq, Clone and Debug of the data types",V2)],["==","!=","clone","clone_from","{:?}"])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
