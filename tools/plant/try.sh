#!/bin/bash
# try.sh id...: the demonstration and the check on the clean and on the changed tree.
V="$(dirname "$(readlink -f "$0")")/../.."
for id in "$@"; do
  S="$V/seeded/$id"; prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "/repo not clean"; exit 1; }
  T=$(mktemp -d); cp "$S"/* "$T"; rm -f "$T"/patch.diff "$T"/meta.json
  (cd /repo && bash "$T/demo.sh") >"$T/o1" 2>&1; a=$?
  git -C /repo apply "$S/patch.diff" || exit 1
  t=-; if [ -z "${FAST:-}" ]; then bash /opt/vp/build.sh >"$T/b" 2>&1; bash /opt/vp/test.sh "$T/t.json" >"$T/t" 2>&1
  t=$(python3 - "$T/t.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];t=json.load(open(sys.argv[1]))
ok=set(t.get('passed',[]));print(len([x for x in b if x not in ok]))
P
); fi
  (cd /repo && bash "$T/demo.sh") >"$T/o2" 2>&1; b=$?
  out=$(bash "$V/check.sh" $prop 2>&1); c=$?
  git -C /repo checkout -q -- .
  echo "$id prop=$prop demo_clean=$a stable_failing=$t demo_bug=$b check=$c | $(tail -1 "$T/o2") | $(echo "$out" | grep -E '^violation|^runs' | cut -c1-200 | tr '\n' ' ')"
  [ $a -ne 0 ] && tail -5 "$T/o1"
  rm -rf "$T"
done
