#!/bin/bash
# Runs the demonstration main.rs against /repo's code in a scratch directory.
here="$(cd "$(dirname "$0")" && pwd)"
d="$(mktemp -d)" || exit 2
trap 'rm -rf "$d"' EXIT
tar xzf "$here/rt.tar.gz" -C "$d" && cp "$here/main.rs" "$d/demo/src/main.rs" && cd "$d" || exit 2
export RUSTUP_TOOLCHAIN=1.88.0 RUSTFLAGS="--cfg xorca_sim --cap-lints allow" CARGO_TARGET_DIR="$d/target" CARGO_PROFILE_DEV_DEBUG=0
unset CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
cargo build --offline --locked -q -p demo || { echo "demo does not build"; exit 3; }
timeout 120 "$d/target/debug/demo"
