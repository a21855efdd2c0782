#!/bin/bash
# run the repository's stable tests and list those that no longer pass
bash /opt/vp/test.sh /tmp/o.json > /tmp/o.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
print("not passing:", sorted(set(b['stable'])-set(o['passed'])))
P
