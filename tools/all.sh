#!/bin/bash
# runs every registered check in strict mode (any unexhausted bound counts as a failure)
cd "$(dirname "$0")/.."
for f in ${@:-$(ls harness/registry | sed 's/.json//')}; do
  s=$(date +%s); VERIF_STRICT=1 ./check $f quick > /tmp/chk_$f.out 2>&1; r=$?
  echo "$f rc=$r $(( $(date +%s)-s ))s"; [ $r = 0 ] || tail -5 /tmp/chk_$f.out
done
