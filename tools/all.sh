#!/bin/bash
# run all checks (quick by default), print the summary lines
cd /verif; T=${TIER:-quick}
for p in ${@:-$(ls harness/c[0-9]*.py | sed 's/.*\(c[0-9]*\).py/\U\1/')}; do python3 check.py $p --tier $T > /tmp/all.$p.log 2>&1; echo "rc=$? $(head -1 /tmp/all.$p.log)"; grep -h "VIOLATION\|ERROR\|UNREPRO\|KNOWN" /tmp/all.$p.log; done
