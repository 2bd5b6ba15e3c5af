#!/bin/bash
# Runs the project's suite and lists stable tests that no longer pass.
OUT=$(mktemp /tmp/basetest.XXXXXX)
bash /opt/vp/test.sh "$OUT" >/dev/null 2>&1
python3 - "$OUT" <<'PY'
import json, sys
b = json.load(open('/opt/vp/BASELINE.json'))
r = json.load(open(sys.argv[1]))
def passing(d):
    for k in ('passed', 'stable', 'stable_passing', 'tests'):
        if k in d:
            d = d[k]
            break
    if isinstance(d, dict):
        return {k for k, v in d.items() if v in ('passed', 'pass', True)}
    return set(d)
want, got = passing(b), passing(r)
print('stable', len(want), 'now failing:', sorted(want - got))
PY
rm -f "$OUT"
