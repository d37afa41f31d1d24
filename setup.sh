#!/bin/bash
# Builds the harness once against /repo (every check builds it again from the working tree).
cd "$(dirname "$0")" || exit 1
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
CARGO_TARGET_DIR=$PWD/harness/target cargo build --release --offline --manifest-path harness/Cargo.toml 2>&1 | tail -3
exit "${PIPESTATUS[0]}"
