#!/bin/bash
# tools/seeded.sh [ID...]: runs the check of each planted bug against a scratch copy of /repo with the bug
cd "$(dirname "$0")/.."
one() {
  id=$1; p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  T=$(mktemp -d); git clone -q /repo $T/r; git -C $T/r apply $PWD/seeded/$id/patch.diff
  NDT_REPO=$T/r NDT_EVIDENCE=$T/ev timeout 900 python3 check.py $p > $T/out 2>&1; rc=$?
  echo "$id $p rc=$rc $(grep -m1 -A1 VIOLATION $T/out | tr '\n' ' ' | cut -c1-200)"
  rm -rf "$T"
}
export -f one
printf '%s\n' "${@:-$(ls seeded)}" | tr ' ' '\n' | xargs -P 3 -I{} bash -c 'one {}'
