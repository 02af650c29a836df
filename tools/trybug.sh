#!/bin/bash
# trybug.sh ID [check ids...]   run checks against a planted bug (applied to /repo and undone)
id=$1; shift
prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$id/patch.diff || exit 9
trap "git -C /repo checkout -q -- ." EXIT
for c in ${@:-$prop}; do
  OUT=$(cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 /opt/venv/bin/python run.py $c --tier quick 2>&1); rc=$?
  echo "$id $c rc=$rc $(echo "$OUT" | grep -m2 VIOLATION | tr '\n' ' ')"
done
