#!/bin/bash
# usage: trybug.sh ID [Cnn ...]: apply seeded bug ID to /repo, run its property's (or the given) quick checks, undo.
id=$1; shift
d=/verif/seeded/$id
props=("$@"); [ $# -eq 0 ] && props=($(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])"))
git -C /repo apply $d/patch.diff || exit 9
trap 'git -C /repo checkout -q -- .' EXIT
for p in "${props[@]}"; do
  s=$(date +%s); out=$(VERIF_SEED=1 timeout 900 bash /verif/run.sh check $p 2>&1); rc=$?
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION <<<"$out")"; [ $rc -gt 1 ] && tail -5 <<<"$out"
done
