#!/bin/bash
# tryscratch.sh ID [PROP]: like trybug.sh, but in copies of /repo and /verif, so that several can run at a time
id=$1; prop=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
d=$(mktemp -d /tmp/try.XXXXXX)
mkdir $d/repo $d/verif
git -C /repo archive HEAD | tar -x -C $d/repo
(cd /verif && tar -c --exclude=seeded --exclude=.git --exclude=evidence --exclude=replay . ) | tar -x -C $d/verif
cd $d/verif
sed -i "s#\"/repo\"#\"$d/repo\"#" tools_build.py
sed -i "s#=> /repo\$#=> $d/repo#" harness/go.mod
sed -i "s#/repo/rust#$d/repo/rust#" readers/rust/Cargo.toml
(cd $d/repo && git init -q . && git apply /verif/seeded/$id/patch.diff) || { echo "TRY $id does not apply"; rm -rf "$d"; exit 9; }
VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} timeout 900 python3 check.py $prop > $d/out 2>&1; rc=$?
echo "TRY $id $prop rc=$rc"; [ $rc = 1 ] || grep -a "CHECK ERROR" -B30 -A30 $d/out; [ -n "$SHOW" ] && grep -A3 VIOLATION $d/out
rm -rf "$d"
