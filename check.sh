#!/bin/bash
# check.sh ID [--build-only]: builds the harness from /repo's working tree and decides one property.
# Exit 0 held, 1 VIOLATION line printed, 2 the check itself could not run.
cd "$(dirname "$0")" || exit 2
ROOT=$PWD
REPO=${VH_REPO:-/repo}
ID=$1
export CARGO_TARGET_DIR=$ROOT/target CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET
mkdir -p "$ROOT/target" "$ROOT/evidence"
# Everything the binaries are built from, by content: cargo goes by modification times, which do
# not tell in a copied tree.
sum() {
  ( cd "$REPO" && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum
    cd "$ROOT/harness" && find . -name target -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum
    cat "$ROOT/tools/cov-rustc.sh"; rustc -V ) | sha256sum | cut -d' ' -f1
}
build() { # dev|release
  local prof=$1 dir=$1 flag=
  # the dev build carries coverage callbacks for the guided stage, the release build is what users get
  [ "$prof" = dev ] && dir=debug && export RUSTC_WRAPPER=$ROOT/tools/cov-rustc.sh
  [ "$prof" = release ] && flag=--release && unset RUSTC_WRAPPER
  local stamp=$ROOT/target/stamp-$prof bin=$ROOT/target/$dir/vh want
  want=$(sum)
  if [ -x "$bin" ] && [ "$(cat "$stamp" 2>/dev/null)" = "$want" ]; then return 0; fi
  rm -f "$stamp"
  find "$ROOT/target/$dir/.fingerprint" -maxdepth 1 \( -name 'sia_sdk-*' -o -name 'sia_sdk_derive-*' -o -name 'verif_harness-*' \) -exec rm -rf {} + 2>/dev/null
  if ! ( cd harness && cargo build --offline --locked $flag --lib --bins ) > "$ROOT/target/build-$prof.log" 2>&1; then
    tail -40 "$ROOT/target/build-$prof.log" >&2
    echo "ERROR: the harness does not build against $REPO ($prof)" >&2
    return 2
  fi
  echo "$want" > "$stamp"
}
build dev || exit 2
RELEASE=
case $ID in
  setup) RELEASE=1 ;;
  C15|C16|C17|C18|C19|C20|C21|C22|C23) RELEASE=1 ;;
  *) [ "$VERIF_TIER" = thorough ] && [ "$ID" != C24 ] && RELEASE=1 ;;
esac
if [ -n "$RELEASE" ]; then
  build release || exit 2
  export VH_RELEASE_BIN=$ROOT/target/release/vh
fi
[ "$ID" = setup ] && exit 0
export VH_ROOT=$ROOT
exec "$ROOT/target/debug/vh" check "$ID"
