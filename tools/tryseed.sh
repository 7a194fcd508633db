#!/bin/bash
# tryseed.sh [-w WORKERS] ID...: runs its property's quick check against a copy of /repo with each seeded change.
w=8; [ "$1" = -w ] && { w=$2; shift 2; }
t=$(mktemp -d /tmp/tryseed.XXXXXX)
mkdir $t/verif
(cd /verif && cp -a engine harness run.sh known-findings.txt properties.jsonl $t/verif/)
mkdir $t/verif/evidence
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cp -a /repo $t/repo
  git -C $t/repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  out=$(VERIF_REPO=$t/repo $t/verif/run.sh $p quick -workers $w 2>&1); rc=$?
  rm -rf "${t:?}/repo"
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -m1 -A1 VIOLATION | sed 's/replay=[^ ]*//' | tr '\n' ' ')"
  [ $rc -ne 1 ] && echo "$out" | tail -5
done
rm -rf "${t:?}"
exit 0
