#!/bin/bash
# Toolchain sanity: everything is rebuilt by each check from /repo's current tree.
set -e
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
cd "$(dirname "$0")"
cargo --version
cargo kani --version
cbmc --version
mkdir -p evidence replays
