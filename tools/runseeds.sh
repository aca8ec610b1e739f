#!/bin/bash
# runseeds.sh [id ...]: runs each planted bug's check (quick) with the bug applied to /repo, and records in meta.json whether it is caught
cd /verif
ids="$@"; [ -z "$ids" ] && ids=$(ls seeded)
for i in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i does not apply"; continue; }
  t0=$(date +%s)
  VERIF_TIER=quick VERIF_SEED=1 timeout 900 bash check.sh $p quick > /tmp/rs_$i.log 2>&1; rc=$?
  git -C /repo checkout -- .
  v=$(grep -c "^VIOLATION property=$p " /tmp/rs_$i.log)
  echo "$i $p rc=$rc violations=$v $(( $(date +%s)-t0 ))s $(grep -m1 '^VIOLATION' /tmp/rs_$i.log)"
  python3 - "$i" "$p" "$rc" "$v" <<'P'
import json,sys
i,p,rc,v=sys.argv[1:]
f='seeded/%s/meta.json'%i
m=json.load(open(f)); m['caught_by']=(p+' (quick)') if rc=='1' and v!='0' else 'not caught'
json.dump(m,open(f,'w'),indent=1)
P
done
