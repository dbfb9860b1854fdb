#!/bin/bash
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -30 /tmp/b.log; echo BUILD FAIL; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))["stable"]); o=set(json.load(open('/tmp/o.json'))["passed"])
print("stable missing:", sorted(b-o), "passed", len(o))
P
cd /repo && git status --short | head -5
