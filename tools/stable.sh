#!/bin/bash
# tools/stable.sh: run the repository's tests, print the stable ones which fail.
out=$(mktemp); bash /opt/vp/test.sh "$out" > /dev/null 2>&1
python3 - "$out" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); b=b.get('passed') or b.get('stable') or b
o=set(json.load(open(sys.argv[1]))['passed'])
m=[x for x in b if x not in o]
print("stable tests broken:", len(m), m[:5])
P
rm -f "$out"
