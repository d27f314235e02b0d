#!/bin/bash
# Runs the repository's tests and compares with the stable baseline.
bash /opt/vp/build.sh || { echo BUILD-FAILED; exit 1; }
bash /opt/vp/test.sh /tmp/basetest.json >/dev/null 2>&1
python3 - <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=set(json.load(open('/tmp/basetest.json'))['passed'])
m=sorted(b-t); print('stable', len(b), 'missing', len(m)); print('\n'.join(m[:10])); sys.exit(1 if m else 0)
P
