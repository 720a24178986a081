#!/bin/bash
# Builds the compiler driver (if needed) and dumps the MIR of the current /repo.
# usage: build.sh OUT.json [cargo flags...]
set -e
V=$(cd "$(dirname "$0")" && pwd)
W=$V/work
OUT=$1; shift
mkdir -p "$W"
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
SYS=$(rustc +nightly --print sysroot)
export LD_LIBRARY_PATH=$SYS/lib
if [ ! -x "$W/mirdump" ] || [ "$V/driver/main.rs" -nt "$W/mirdump" ]; then
  rustc +nightly -O --edition 2021 "$V/driver/main.rs" -o "$W/mirdump.new"
  mv "$W/mirdump.new" "$W/mirdump"
fi
export CARGO_TARGET_DIR=${VT:-$W/target} CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Zub-checks=no $XRUSTFLAGS"
export MIRDUMP_OUT=$OUT RUSTC_WORKSPACE_WRAPPER=$W/mirdump
export CARGO_INCREMENTAL=0
exec 9>"$W/build.lock"
flock 9
# Cargo compares modification times; always rebuild the analysed crate and the harness.
for p in debug release; do
  for c in eth_trie_utils vharness; do
    rm -rf "${CARGO_TARGET_DIR:?}/$p/build/$c"
  done
done
rm -f "$OUT"
cd "$V/harness"
cargo +nightly check --offline -q "$@"
test -s "$OUT"
