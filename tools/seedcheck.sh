#!/bin/bash
# seedcheck.sh [ID...]: run the quick check of each planted bug's property
# against a scratch copy of /repo with the bug applied (development aid; the
# registered checks always run against /repo).
mkdir -p /tmp/sc
for id in ${@:-$(ls /verif/seeded)}; do
  r=/tmp/sc/repo_$id; rm -rf "$r"; cp -a /repo "$r"
  git -C $r apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  s=$(date +%s)
  (cd /verif && REPO=$r timeout 900 ./bin/verifengine check -prop $p -verif /verif -repo $r -tier quick ${SC_ARGS} > /tmp/sc/$id.out 2>&1); rc=$?
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -c '^VIOLATION' /tmp/sc/$id.out)"
  rm -rf "$r"
done
