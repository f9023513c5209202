#!/bin/sh
# Build the simulator from /repo's current working tree (offline).
# Everything goes to sim/target, which git ignores.
set -e
cd "$(dirname "$0")/sim"
export RUSTFLAGS="-Awarnings" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
# The library is instrumented
export RUSTC_WRAPPER="$PWD/rustc.sh"
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
# Do not rely on time stamps for noticing a change of the code under test
now=$( (cat rustc.sh; cd /repo && find src Cargo.toml build.rs -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum) | sha256sum)
stamp=target/repo.sha256
if [ "$(cat $stamp 2>/dev/null)" != "$now" ]; then
    rm -f "$PWD/$stamp"
    cargo clean --offline --release -p firrtl-ast >/dev/null 2>&1 || true
fi
cargo build --offline --release --quiet
echo "$now" > $stamp
