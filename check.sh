#!/bin/bash
# check.sh ID quick|thorough: build the monitors against /repo's working tree, run one property.
# Exit 0: held on everything observed; 1: VIOLATION printed; 2: no verdict (build or tool failure).
set -u
ID=${1:?property id}
TIER=${2:-quick}
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
export HOME="${HOME:-/root}"
export PATH="$HOME/.cargo/bin:/usr/local/cargo/bin:$PATH"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS MIRIFLAGS
export CARGO_INCREMENTAL=0
mkdir -p evidence replays scratch
# bnf is always compiled afresh: file times do not decide what is checked
rm -rf "$PWD"/target/release/.fingerprint/bnf-*
if ! CARGO_TARGET_DIR="$PWD/target" cargo build -q --release --offline --manifest-path harness/Cargo.toml >scratch/build.log 2>&1; then
    echo "BUILD FAILED: the harness does not compile against /repo (no verdict)"
    tail -40 scratch/build.log
    exit 2
fi
exec target/release/bnfmon check "$ID" "$TIER"
