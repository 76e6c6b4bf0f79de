#!/bin/bash
# tools/trybug.sh ID [PROPERTY...]: apply a planted bug to a scratch copy of /repo and run the check(s) against it
B=$1; shift
W=/tmp/trybug_$B
rm -rf "/tmp/trybug_$B"; cp -a /repo $W; git -C $W checkout -q -- .
git -C $W apply /verif/seeded/$B/patch.diff || exit 3
trap 'rm -rf "/tmp/trybug_$B"' EXIT
P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$B/meta.json'))['property'])")
cd /verif
for p in ${@:-$P}; do
  s=$(date +%s); VERIF_REPO=$W timeout 890 python3 check.py $p > /tmp/trybug.$B.$p.log 2>&1; rc=$?
  echo "$B $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 -h VIOLATION /tmp/trybug.$B.$p.log)"
done
