#!/bin/bash
# run /repo's stable tests, print those that fail
o=$(mktemp); bash /opt/vp/test.sh $o >/dev/null 2>&1
python3 - $o <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open(sys.argv[1]))
p=set(o['passed']); m=[t for t in b['stable'] if t not in p]
print(len(b['stable']),'stable,',len(m),'not passing',m[:10])
P
