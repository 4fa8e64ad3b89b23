#!/bin/bash
# Builds main.rs against /repo/sia in a scratch directory and runs it: exit 0 when the property holds there.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
cp "$D/main.rs" "$D/Cargo.toml" "$D/Cargo.lock" "$T/" || exit 3
cd "$T" || exit 3
CARGO_TARGET_DIR="$T/target" CARGO_NET_OFFLINE=true cargo run -q --offline @FLAG@ --manifest-path "$T/Cargo.toml"
