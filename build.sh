#!/bin/bash
# Builds the monitoring harness, and with it /repo's current working tree, with the observation
# points switched on.
set -e
export HOME="${HOME:-/root}"
export PATH="$HOME/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=1.86.0-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
cd "$(dirname "$0")/harness"
if [ -n "$VERIF_SANITIZER" ]; then
    # the sanitizer's runtime is part of the toolchain; its flag is not a stable one
    export RUSTC_BOOTSTRAP=1 RUSTFLAGS="-Zsanitizer=address" CARGO_TARGET_DIR=target/asan
    flags="--target x86_64-unknown-linux-gnu"
fi
cargo build --offline --locked $flags ${VERIF_BUILD_FLAGS:---quiet} 2>&1 | { grep -E -A6 "^error|panicked" || true; } >&2
exit "${PIPESTATUS[0]}"
