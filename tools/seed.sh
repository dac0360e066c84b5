#!/bin/bash
# seed.sh <id>... : validates planted bugs (applies to /repo, builds, stable tests, demo both ways, check) and restores /repo
cd /repo || exit 1
for id in "$@"; do
 D=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
 [ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
 S=$(mktemp -d); cp $D/* $S/; rm -f $S/patch.diff $S/meta.json
 bash $S/demo.sh >/tmp/seed.out 2>&1; A=$?
 git apply $D/patch.diff || { echo "$id: patch does not apply"; continue; }
 bash $S/demo.sh >/tmp/seed.out 2>&1; B=$?
 T=$(bash /opt/vp/build.sh >/tmp/b.log 2>&1 || echo BUILDFAIL; bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1; python3 -c "
import json
a=json.load(open('/tmp/o.json')); b=json.load(open('/opt/vp/BASELINE.json')); m=set(b['stable'])-set(a['passed']); print('missing',len(m),sorted(m)[:3])")
 (cd /verif; python3 sa/run.py $P quick) > /tmp/seed.chk 2>&1; C=$?
 git checkout -q -- .
 echo "$id [$P] demo clean=$A bug=$B; tests $T; check exit $C: $(grep -m1 VIOLATION /tmp/seed.chk | cut -c1-160)"
 rm -rf "$S"
done
