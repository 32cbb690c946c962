#!/bin/bash
# runs the repository's tests and compares with the stable baseline
T=$(mktemp)
bash /opt/vp/test.sh "$T" >/dev/null 2>&1
python3 - "$T" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
m=set(map(str,b['stable']))-set(map(str,o.get('passed',[])))
print('stable tests missing:', m or 'none'); sys.exit(1 if m else 0)
P
