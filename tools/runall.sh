#!/bin/bash
# runall.sh [tier] [ids...]: run the registered checks one after another
T=${1:-quick}; shift; cd /verif
for i in ${@:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}; do
  s=$(date +%s); timeout 1800 python3 check.py $i $T >/tmp/ra.$i.log 2>&1; r=$?; echo "$i rc=$r $(( $(date +%s)-s ))s $(grep -E 'VIOLATION|INCOMPLETE|undecided' /tmp/ra.$i.log | head -2)"
done
