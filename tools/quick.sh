#!/bin/bash
# quick.sh CNN...: run quick checks, print the verdict and the cost of each phase
cd "$(dirname "$0")/.."
for p in "$@"; do
	s=$(date +%s)
	bash run.sh ${TIER:-quick} $p > /tmp/quick.$p.log 2>&1; rc=$?
	echo "== $p rc=$rc $(( $(date +%s) - s ))s"; tail -3 /tmp/quick.$p.log | cut -c1-600
	python3 - $p <<'PY'
import json,sys
e=json.load(open('evidence/%s.json'%sys.argv[1]))
for ph in e['coverage'].get('phases',[]): print('    %-22s %6.1fs cases %6d/%d transitions %d'%(ph.get('phase',ph.get('name')),ph.get('wall_s',0),ph.get('cases_run',0),ph.get('cases_enumerated',0),ph.get('transitions',0)))
PY
done
