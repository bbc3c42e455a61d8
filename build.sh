#!/bin/bash
# Builds one harness package against /repo's current working tree.
#   build.sh core   simulator of the staking program (xsim)
#   build.sh rpc    simulator of the Rust client over a faulty RPC transport (xrpc)
#   build.sh js     the same plus the JavaScript client, bundled
#   build.sh ts     the same plus the command-line scripts, bundled
set -u
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export RUSTUP_TOOLCHAIN=1.88.0
export RUSTFLAGS="--cfg xorca_sim --cap-lints allow"
export CARGO_TARGET_DIR="$PWD/target"
unset CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
mkdir -p target/release
# One build at a time (checks may be started concurrently).
exec 9>target/.build.lock
flock 9
# Cargo decides by modification time; decide by content instead.
hash_dir() { (cd "$1" && find . -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.json' \) -not -path './target/*' -not -path '*/node_modules/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-64); }
stamp() {
  local name=$1 dir=$2 glob=$3 now
  now=$(hash_dir "$dir")
  if [ "$(cat "target/.stamp-$name" 2>/dev/null)" != "$now" ]; then
    find target/release/.fingerprint -maxdepth 1 -name "$glob" -exec rm -rf -- {} + 2>/dev/null
    echo "$now" >"target/.stamp-$name"
  fi
}
stamp program /repo/solana-program 'xorca-staking-program-*'
case "${1:-core}" in
  core) pkg=xsim ;;
  rpc) pkg=xrpc; stamp client /repo/rust-client 'xorca-[0-9a-f]*' ;;
  js) pkg=xrpc; stamp client /repo/rust-client 'xorca-[0-9a-f]*'
    mkdir -p target/js
    node sim/js/bundle.mjs /repo target/js/client.tmp.cjs && mv -f target/js/client.tmp.cjs target/js/client.cjs || { echo "bundling the JavaScript client failed" >&2; exit 2; } ;;
  ts) pkg=xrpc; stamp client /repo/rust-client 'xorca-[0-9a-f]*'
    mkdir -p target/js && find target/js -maxdepth 1 -name 'scripts.*' -exec rm -rf -- {} +
    new=$(mktemp -d target/js/scripts.XXXXXX) && node sim/js/bundle.mjs /repo "$new" scripts || { echo "bundling the scripts failed" >&2; exit 2; }
    if [ -d target/js/scripts ]; then mv target/js/scripts "$new.old" && mv "$new" target/js/scripts && rm -rf -- "$PWD/$new.old"; else mv "$new" target/js/scripts; fi ;;
  *) echo "build.sh core|rpc|js|ts" >&2; exit 2 ;;
esac
cd sim || exit 2
out=$(cargo build --offline --locked --release -q -p "$pkg" 2>&1)
rc=$?
if [ $rc -ne 0 ]; then
  echo "$out" | tail -40 >&2
  echo "build of $pkg failed" >&2
  exit 2
fi
