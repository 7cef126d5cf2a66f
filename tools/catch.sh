#!/bin/bash
# catch.sh [ID...]: which planted bugs does the quick check of their property catch? (results in tools/caught.json)
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  rm -rf /tmp/catchwt; cp -a /repo /tmp/catchwt
  git -C /tmp/catchwt apply /verif/seeded/$id/patch.diff || { echo "$id DOES NOT APPLY"; continue; }
  s=$(date +%s)
  VERIF_REPO=/tmp/catchwt timeout 900 python3-vt check.py $p --tier quick > /tmp/catch.log 2>&1; rc=$?
  e=$(date +%s)
  echo "$id $p rc=$rc $((e-s))s $(grep -c '^VIOLATION property='$p /tmp/catch.log)"
  python3 - $id $rc $((e-s)) <<'P'
import json,os,sys
f='/verif/tools/caught.json'; d=json.load(open(f)) if os.path.exists(f) else {}
d[sys.argv[1]]=[int(sys.argv[2]),int(sys.argv[3])]
json.dump(d,open(f,'w'),indent=1,sort_keys=True)
P
done
rm -rf /tmp/catchwt
