#!/bin/bash
# run the repository's tests and list stable tests that no longer pass
bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1
python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
def names(x):
    if isinstance(x,list): return set(x)
    return set(x)
st=names(b.get('stable') or b.get('passed') or b.get('tests'))
ok=names(t.get('passed') or [])
print('missing:',sorted(st-ok))
PY
