#!/bin/bash
# Packs the self-contained runtimes that the demonstrations in /verif/seeded carry along.
set -eu
here="$(dirname "$(readlink -f "$0")")"; V="$here/../.."
d=$(mktemp -d)
mkdir -p "$here/rt" "$d/core/demo/src" "$d/core/xsim"
cp -r "$V/vendor" "$d/core/vendor"; rm -r "$d/core/vendor/solana-cpi"
cp -r "$V/sim/xsim/src" "$V/sim/xsim/Cargo.toml" "$d/core/xsim/"; rm "$d/core/xsim/src/main.rs"
sed -e 's/members = .*/members = ["xsim", "demo"]/' -e 's#\.\./vendor#vendor#' -e '/solana-cpi/d' "$V/sim/Cargo.toml" > "$d/core/Cargo.toml"
cat > "$d/core/demo/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
xsim = { path = "../xsim" }
pinocchio = "0.9.1"
xorca-staking-program = { path = "/repo/solana-program" }
T
cp "$here/core_kit.rs" "$d/core/demo/src/kit.rs"; echo 'mod kit; fn main(){}' > "$d/core/demo/src/main.rs"
cp "$V/sim/Cargo.lock" "$d/core/Cargo.lock"
mkdir -p "$d/client/demo/src"
cat > "$d/client/Cargo.toml" <<'T'
[workspace]
resolver = "2"
members = ["demo"]
[patch.crates-io]
solana-cpi = { path = "vendor/solana-cpi" }
T
mkdir "$d/client/vendor"; cp -r "$V/vendor/solana-cpi" "$d/client/vendor/"
cat > "$d/client/demo/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
xorca = { path = "/repo/rust-client", features = ["fetch"] }
T
cat >> "$d/client/demo/Cargo.toml" <<'T'
solana-client = "~2.3"
solana-pubkey = "~2.4"
solana-instruction = "~2.3"
solana-cpi = "~2.2.1"
solana-account-info = "~2.3"
async-trait = "0.1"
base64 = "0.22"
borsh = "0.10"
serde_json = "1"
bs58 = "0.5"
T
cp "$here/client_kit.rs" "$d/client/demo/src/kit.rs"
echo 'fn main(){}' > "$d/client/demo/src/main.rs"
cp "$V/sim/Cargo.lock" "$d/client/Cargo.lock"
for x in core client; do (cd "$d/$x" && RUSTUP_TOOLCHAIN=1.88.0 cargo metadata --offline --format-version 1 >/dev/null); (cd "$d/$x" && tar czf "$here/rt/$x.tar.gz" --sort=name --mtime=2024-01-01 --owner=0 --group=0 .); done
rm -rf "$d"
ls -la "$here/rt"
