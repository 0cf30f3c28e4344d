#!/bin/bash
# run the repository's tests and list failures
bash /opt/vp/test.sh /tmp/o.json 2>&1 | tail -1
python3 -c "
import json
o=json.load(open('/tmp/o.json'));b=json.load(open('/opt/vp/BASELINE.json'))
print('not passing:',[t for t in b['stable'] if t not in o['passed']])"
