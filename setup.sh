#!/bin/bash
# builds the symbolic executor and warms nothing else; needs no network
set -e
cd "$(dirname "$0")"
mkdir -p build evidence replays
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
cargo build --release --offline --manifest-path engine/Cargo.toml --target-dir build/engine
