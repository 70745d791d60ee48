#!/bin/bash
# plant.sh <id> [notest]: verifies /verif/seeded/<id> in the scratch copy /tmp/sc
ID=$1; S=/verif/seeded/$ID
[ -d /tmp/sc ] || cp -a /repo /tmp/sc
if [ "$(cat /tmp/sc/.head 2>/dev/null)" != "$(git -C /repo rev-parse HEAD)" ]; then
  git -C /tmp/sc checkout -q -- . ; git -C /tmp/sc pull -q /repo HEAD 2>/dev/null; git -C /repo rev-parse HEAD > /tmp/sc/.head; rm -rf /tmp/sc/.clean
fi
sed 's#/repo#/tmp/sc#g' /opt/vp/env.sh > /tmp/sc/.env.sh
sed 's#/repo#/tmp/sc#g; s#/opt/vp/env.sh#/tmp/sc/.env.sh#' /opt/vp/build.sh | grep -v "cargo check" > /tmp/sc/.build.sh
sed 's#/repo#/tmp/sc#g; s#/opt/vp/env.sh#/tmp/sc/.env.sh#' /opt/vp/test.sh > /tmp/sc/.test.sh
cd /tmp/sc; git checkout -q -- .
bash .build.sh > /tmp/sc/.b.log 2>&1 || { echo "clean build failed"; tail -5 .b.log; exit 1; }
bash $S/demo.sh > .d.log 2>&1; echo "demo clean: $? $(tail -1 .d.log)"
git apply $S/patch.diff || exit 1
bash .build.sh > .b.log 2>&1 || { echo "BUILD FAILED"; grep -A8 ^error .b.log | head -30; git checkout -q -- .; exit 1; }
bash $S/demo.sh > .d.log 2>&1; echo "demo patched: $? $(tail -1 .d.log)"
if [ "$2" != notest ]; then timeout 800 bash .test.sh /tmp/sc/.out.json > .t.log 2>&1; tail -1 .t.log; python3 -c "
import json;o=json.load(open('/tmp/sc/.out.json'));b=json.load(open('/opt/vp/BASELINE.json'))['stable']
print('stable failing:',[t for t in b if t not in set(o['passed'])][:5])"; fi
git checkout -q -- .
