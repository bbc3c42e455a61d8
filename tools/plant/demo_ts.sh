#!/bin/bash
# Runs the demonstration main.mjs against /repo's command-line scripts, bundled into a scratch directory.
here="$(cd "$(dirname "$0")" && pwd)"
d="$(mktemp -d)" || exit 2
trap 'rm -rf "$d"' EXIT
node "$here/bundle.mjs" /repo "$d" scripts || { echo "the scripts do not bundle"; exit 3; }
timeout 120 node "$here/main.mjs" "$d"
