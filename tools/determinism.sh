#!/bin/bash
# Same seed, same execution: compares the step-by-step digests of runs lo..hi of
# every property between a run on one worker and others on several, in fresh processes.
set -u
here="$(dirname "$(readlink -f "$0")")/.."; n=${1:-300}; bad=0
for id in $(python3 -c "import json;[print(c['property']) for c in json.load(open('$here/MANIFEST.json'))['checks']]"); do
  case $id in P*) b=xsim;; [CJT]*) b=xrpc;; *) continue;; esac
  for seed in 1 2 77; do
    ref=""
    for w in 1 8 3; do
      s=$(XSIM_WORKERS=$w VERIF_SEED=$seed XSIM_ROOT=$here "$here/target/release/$b" log "$id" 0 "$n" | sha256sum)
      [ -z "$ref" ] && ref=$s
      [ "$s" = "$ref" ] || { echo "NOT DETERMINISTIC $id seed $seed workers $w"; bad=1; }
    done
  done
  echo "$id identical in 9 processes (3 seeds, $n runs each)"
done
exit $bad
