#!/bin/bash
# check.sh <property>: build against /repo's current tree, then search.
set -u
here="$(dirname "$(readlink -f "$0")")"
case "$1" in
  P*) kind=core; bin=xsim ;;
  C*) kind=rpc; bin=xrpc ;;
  J*) kind=js; bin=xrpc ;;
  T*) kind=ts; bin=xrpc ;;
  *) echo "unknown property $1" >&2; exit 2 ;;
esac
bash "$here/build.sh" $kind || exit 2
export XSIM_ROOT="$here"
exec "$here/target/release/$bin" run "$1"
