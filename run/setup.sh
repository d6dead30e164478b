#!/bin/bash
# Builds the harness crates once (the checks rebuild what changed).
cd "$(dirname "$0")/.." || exit 1
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_TARGET_DIR=$PWD/target CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0 LLVM_SYS_140_PREFIX=/usr/lib/llvm-14
for c in harness llvm; do
  [ -f $c/Cargo.toml ] && { (cd $c && cargo build --offline -q 2>/dev/null) || exit 1; }
done
for m in spec/*.tla; do :; done
exit 0
