#!/bin/bash
# Runs the demonstration main.mjs against /repo's JavaScript client in a scratch directory.
here="$(cd "$(dirname "$0")" && pwd)"
d="$(mktemp -d)" || exit 2
trap 'rm -rf "$d"' EXIT
node "$here/bundle.mjs" /repo "$d/client.cjs" || { echo "the client does not bundle"; exit 3; }
timeout 120 node "$here/main.mjs" "$d/client.cjs"
