#!/bin/bash
# seedcheck.sh ID [check args]: run the property's check against a scratch copy of /repo carrying seeded/ID
id=$1; shift
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
R=/tmp/sk_$id; V=/tmp/sv_$id
/bin/rm -rf $R $V; cp -a /repo $R; git -C $R apply /verif/seeded/$id/patch.diff || exit 9
mkdir $V; cd /verif; cp -a check harness symex props.py known_findings.txt properties.jsonl MANIFEST.json $V/
grep -rl "/repo" $V | xargs sed -i "s#/repo\\b#$R#g"
cd $V; timeout 890 ./check $p --tier quick "$@" > /tmp/sk_$id.log 2>&1; rc=$?
echo "$id $p rc=$rc $(grep -c VIOLATION /tmp/sk_$id.log) $(grep VIOLATION /tmp/sk_$id.log | head -1 | cut -c1-200)"; tail -1 /tmp/sk_$id.log | cut -c1-200
/bin/rm -rf $R $V
