#!/bin/bash
# mkseed.sh ID: take the diff of the scratch copy /tmp/seed/repo as the patch of
# seeded/ID, and confirm it: builds, passes the stable tests, and its demo
# fails with it and passes without it.
id=$1; d=/verif/seeded/$id
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
cd /tmp/seed/repo || exit 1
git add -A -N . ; git diff HEAD > /tmp/seed/$id.diff
[ -s /tmp/seed/$id.diff ] || { echo "empty diff"; exit 1; }
mkdir -p $d; cp /tmp/seed/$id.diff $d/patch.diff
go build ./... || { echo BUILD FAILS; exit 1; }
go test -json -vet=off -count=1 -timeout 10m ./... > /tmp/seed/test.json
python3 - <<'P'
import json
res={}
for l in open('/tmp/seed/test.json'):
    e=json.loads(l)
    if e.get('Test') and e['Action'] in('pass','fail'): res[e['Package']+'/'+e['Test']]=e['Action']
b=json.load(open('/opt/vp/BASELINE.json'))['stable']
bad=[t for t in b if res.get(t)!='pass']
print('TESTS', 'ok' if not bad else bad)
P
bash $d/demo.sh > /tmp/seed/demo_with.log 2>&1; echo "demo with patch: $? (want nonzero)"
tail -3 /tmp/seed/demo_with.log
git checkout -q -- .
bash $d/demo.sh > /tmp/seed/demo_without.log 2>&1; echo "demo without: $? (want 0)"
grep -h 'panic\|FAIL' /tmp/seed/demo_without.log | head -3
git -C /repo apply --check $d/patch.diff && echo applies
