#!/bin/bash
# warm the concrete harness's dependencies and check the tools are there
cd "$(dirname "$0")" || exit 1
command -v verus >/dev/null || { echo "verus missing"; exit 1; }
mkdir -p out evidence
RUSTUP_TOOLCHAIN=1.77.2 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/out/target" RUSTFLAGS="--cap-lints warn" \
  cargo build --offline --locked --manifest-path replay/Cargo.toml 2>&1 | tail -3
RUSTUP_TOOLCHAIN=1.77.2 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/out/target-asm" RUSTFLAGS="--cap-lints warn" \
  cargo build --offline --locked --manifest-path asm/Cargo.toml 2>&1 | tail -3
exit 0
