#!/bin/bash
# builds the monitors once; every check does so again on its own
set -u
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true
mkdir -p evidence replays scratch
CARGO_TARGET_DIR="$PWD/target" cargo build -q --release --offline --manifest-path harness/Cargo.toml || exit 1
target/release/bnfmon list
