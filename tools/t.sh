#!/bin/bash
# run the stable tests of /repo and report regressions
bash /opt/vp/build.sh >/dev/null 2>&1; bash /opt/vp/test.sh /tmp/out.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('/tmp/out.json'))
print('regressions:', sorted(set(b)-set(o['passed'])), 'passed', len(o['passed']))
P
