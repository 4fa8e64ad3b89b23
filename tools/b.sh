#!/bin/bash
# dev helper: build harness, show only harness diagnostics
cd /verif/harness && RUSTC_WRAPPER=/verif/tools/cov-rustc.sh CARGO_TARGET_DIR=/verif/target cargo build --offline --message-format short "$@" 2>&1 | grep -E "^src/|^error|Finished" | head -${N:-40}
