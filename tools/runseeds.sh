#!/bin/bash
# Development helper: applies each seeded change to /repo, runs its property's quick check, undoes it.
cd /verif/seeded || exit 1
for id in ${@:-*}; do
  p=$(python3 -c "import json;print(json.load(open('$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id DOES NOT APPLY"; continue; }
  s=$(date +%s)
  bash /verif/check.sh $p quick >/tmp/seedrun.$id 2>&1; rc=$?
  git -C /repo checkout -q -- .
  python3 - "$id" $rc <<'P'
import json,os,sys
f='/verif/tools/seed_results.json'; d=json.load(open(f)) if os.path.exists(f) else {}
d[sys.argv[1]]={'1':'caught','0':'missed'}.get(sys.argv[2],'error'); json.dump(d,open(f,'w'),indent=1,sort_keys=True)
P
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 -o 'VIOLATION.*' /tmp/seedrun.$id)"
done
