#!/bin/bash
# run the property's check against every planted bug, in scratch copies (VERIF_REPO): runbugs.sh [id ...]
cd "$(dirname "$0")/.."
V=$PWD
ids=("$@"); [ ${#ids[@]} -eq 0 ] && ids=($(ls seeded))
for b in "${ids[@]}"; do
  T=$(mktemp -d); git clone -q /repo $T/repo; git -C $T/repo apply $V/seeded/$b/patch.diff
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  s=$(date +%s); VERIF_REPO=$T/repo python3-vt check.py $p > $T/out 2>&1; r=$?
  echo "$b $p rc=$r $(( $(date +%s)-s ))s $(grep -c '^VIOLATION' $T/out) $(grep '^VIOLATION' $T/out | head -1 | cut -c1-150)"
  rm -rf "$T"
done
