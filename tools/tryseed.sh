#!/bin/bash
# tryseed.sh ID...: build, test, demo and check each planted change in /repo, then undo it
cd /repo || exit 1
base=$(python3 -c "import json;d=json.load(open('/opt/vp/BASELINE.json'));print(json.dumps(d))")
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git apply "$d/patch.diff" || { echo "$id: patch does not apply"; continue; }
  if [ -z "$CHECKONLY" ]; then
    bash /opt/vp/build.sh > /tmp/seed/$id.build 2>&1 && B=ok || B=FAIL
    bash /opt/vp/test.sh /tmp/seed/$id.json > /tmp/seed/$id.test 2>&1
    T=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed/$id.json'))
st=b.get('stable') or b.get('passed') or b
st=st if isinstance(st,list) else list(st)
miss=[x for x in st if x not in r['passed']]
print('tests-ok' if not miss else 'TESTS-FAIL %s'%miss[:3])
P
)
    bash $d/demo.sh > /tmp/seed/$id.demo 2>&1; D=$?
  fi
  timeout 900 python3 /verif/harness/check.py $p > /tmp/seed/$id.check 2>&1; C=$?
  git checkout -q -- .
  echo "$id [$p]: build=$B $T demo=$D check=$C $(grep -c VIOLATION /tmp/seed/$id.check)"
done
