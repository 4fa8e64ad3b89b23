#!/usr/bin/env python3
# Regenerates MANIFEST.json from properties.jsonl and the notes below.
import json
T={
"C01":("round trip and differential against an independent reference codec","every generated value of 60+ types is encoded and compared byte for byte with a codec written from the wire format, decoded back, and cut at prefixes"),
"C02":("round trip and differential against an independent reference codec","as C01 for the v1 format"),
"C03":("differential against a reference JSON writer, round trip under key reordering","object model compared with the documented JSON; every value re-parsed with shuffled keys, whitespace and escapes"),
"C04":("structure-aware fuzzing (random and mutated encodings) against a reference decoder, with stack, abort and heap oracles","a reference parser decides acceptance, value and consumed length; peak heap is bounded through interposed malloc; crashes are attributed to the single case in a child process"),
"C05":("grammar-based mutation of text and JSON against a reference parser","a reference parser with an explicit tolerance list decides acceptance and value; panics are failures; accepted values are re-rendered"),
"C06":("fault injection: generated fragmentation, interruption and failure schedules of the stream","the full encoding is the oracle for what was delivered; every failure point of small encodings is enumerated"),
"C07":("round trip, exhaustive single-character corruption and metamorphic relations on text forms","BLAKE2b checksum recomputed by an independent implementation"),
"C08":("differential against a reference Merkle tree; metamorphic one-field changes","0 to 300 keys, all tree shapes"),
"C09":("differential against a reference address definition; metamorphic opaque substitution","trees with up to 255 children"),
"C10":("differential against a reference segment tree over edit histories and thread-pool sizes","stateful edit sequences of one sector, 1 to 16 threads; thread schedules are sampled, not enumerated"),
"C11":("differential against reference ids; one-field metamorphic changes over the whole object model","every leaf field of a generated transaction is a mutation target"),
"C12":("differential against reference semantics encoding; one-field metamorphic changes over the whole object model","each change is classified as witness or content by the object model, the id must stay or move accordingly"),
"C13":("differential against a reference signature hash; one-field metamorphic changes","covered fields with repeated, unordered and out-of-range indices, heights at and next to every fork"),
"C14":("differential against a reference signature hash; one-field metamorphic changes","as C13 for the four v2 kinds"),
"C15":("differential against a from-scratch big-integer Ed25519; tampering and special keys","debug and release builds; forgeries by small-order and non-canonical points included"),
"C16":("differential against a reference BIP-39 and key derivation; phrase mutation","debug and release builds"),
"C17":("differential against big integers in debug and release builds","boundary-biased 128-bit operands and sums"),
"C18":("differential against an exact rational parser in debug and release builds","grammar-generated and mutated amounts at the 128-bit and one-hasting limits"),
"C19":("model-based check of the hardfork schedule against published constants","heights at and next to every boundary of built-in and generated networks"),
"C20":("model-based check of subsidies at and around generated subsidy blocks","totals over ranges of heights and exact amounts at single heights"),
"C21":("differential against exact integer and IEEE double models","heights around the tax hardfork"),
"C22":("round trip and differential against a reference codec of the chain state","all heights from pre-genesis on; accumulators with mismatching tree lists must be refused"),
"C23":("stateful generation of ownership histories with a memory oracle on freed and dropped storage, in debug and release builds","freed heap blocks and dropped stack slots are searched for the secret"),
"C24":("generated Rust programs compiled and run against expectations of a reference encoder","control program separates tool-chain faults from violations"),
"C25":("round trip through a binary serde format (CBOR), differential against the JSON value","text and non-text branches"),
"C26":("invariant over pairs: equality against the equality of the contents of values built twice, edited in one place, or cloned","every type with PartialEq, Clone where the type has it"),
}
checks=[]
for l in open("/verif/properties.jsonl"):
    p=json.loads(l)["id"]
    if p not in T: continue
    checks.append(dict(property=p,quick_cmd=f"./check.sh {p}",thorough_cmd=f"VERIF_TIER=thorough ./check.sh {p}",evidence_file=f"evidence/{p}.json",
      technique=("property-based testing: " if p in ("C10","C24") else "property-based testing with a coverage-guided stage: ")+T[p][0],level="exploration",
      level_note="Exploration, no proof of absence. "+T[p][1]+". Trusts the reference model in harness/src (written from the Sia protocol, cross-checked by selftests), rustc and the test engine."))
m=dict(version=1,setup_cmd="./check.sh setup",checks=checks,not_applicable=[],notes="No hooks in /repo are needed: every check drives the public API. The 21 fix: commits in /repo are listed in KNOWN_FINDINGS.txt.")
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
