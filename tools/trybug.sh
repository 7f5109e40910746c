#!/bin/bash
# trybug.sh ID [PROP]: the property's quick check against the planted bug; the change is undone afterwards
id=$1; d=/verif/seeded/$id; p=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo diff --quiet || { echo "/repo is dirty"; exit 9; }
git -C /repo apply $d/patch.diff || exit 9
trap 'git -C /repo checkout -- .' EXIT
out=$(mktemp); VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} timeout 900 python3 /verif/check.py $p >$out 2>&1; rc=$?
grep -m3 VIOLATION $out; echo "TRY $id $p rc=$rc"; [ $rc = 1 ] || tail -5 $out; rm -f $out
