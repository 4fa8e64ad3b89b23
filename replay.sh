#!/bin/bash
# replay.sh FILE: re-runs a recorded failing case against /repo's working tree (exit 1 while it fails).
F=$(realpath "$1") || exit 2
cd "$(dirname "$0")" || exit 2
./check.sh setup || exit 2
VH_RELEASE_BIN=$PWD/target/release/vh exec target/debug/vh replay "$F"
