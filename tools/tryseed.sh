#!/bin/bash
# tryseed.sh ID...: confirms planted bugs (tests pass, demo 0 clean / nonzero patched) and runs the property's check on each.
# Everything happens on /repo, which is restored afterwards.
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 1; }
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  r="$id $p"
  ( cd /repo && timeout 300 bash $d/demo.sh >/tmp/w/demo-clean.log 2>&1 ); c=$?
  git -C /repo apply $d/patch.diff || { echo "$r PATCH DOES NOT APPLY"; continue; }
  bash /opt/vp/build.sh >/tmp/w/b.log 2>&1 && bash /opt/vp/test.sh /tmp/w/o.json >/tmp/w/t.log 2>&1; t=$?
  ( cd /repo && timeout 300 bash $d/demo.sh >/tmp/w/demo-bad.log 2>&1 ); b=$?
  s=$(date +%s); out=$(cd /verif && VERIF_SEED=${SEED:-1} VERIF_TIER=quick timeout 900 ./check.sh $p 2>&1); k=$?; e=$(date +%s)
  git -C /repo checkout -- .
  v=MISSED; [ $k = 1 ] && echo "$out" | grep -q "VIOLATION property=$p" && v=caught
  ok=valid; [ $c = 0 ] && [ $t = 0 ] && [ $b != 0 ] || ok="INVALID(clean=$c tests=$t bad=$b)"
  echo "$r $ok $v check_exit=$k $((e-s))s  $(tail -1 /tmp/w/demo-bad.log | cut -c1-100) | $(echo "$out" | grep '^\[' | head -1 | cut -c1-160)"
done
