#!/bin/bash
# Runs the repository's tests and prints the stable ones that do not pass (none expected).
out=$(mktemp /tmp/vt.XXXX.json)
bash /opt/vp/test.sh "$out" > /tmp/vt.log 2>&1
python3 - "$out" <<'P'
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
lost=[t for t in b['stable'] if t not in set(o['passed'])]
print('stable', len(b['stable']), 'lost', len(lost), lost[:8])
sys.exit(1 if lost else 0)
P
rc=$?; rm -f "$out"; exit $rc
