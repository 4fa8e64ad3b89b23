#!/bin/bash
# test & commit: ft.sh "msg"
cd /repo
cargo fmt --all 2>/dev/null
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo BUILD FAIL; tail -30 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
print({k:(len(v) if isinstance(v,(list,dict)) else v) for k,v in t.items()})
P
git diff --stat
git commit -qam "$1" && git log --oneline | head -1
git status --short
