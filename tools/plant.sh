#!/bin/bash
# plant.sh ID: turns the edits in the scratch copy /tmp/sd (cp -a of /repo) into /verif/seeded/ID/patch.diff and confirms the planted bug there
id=$1; d=/verif/seeded/$id
mkdir -p "$d"
cd /tmp/sd || exit 1
git diff > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "no edit"; exit 1; }
build() { (cd lib/digitraffic-common && TZ=UTC CI=1 node node_modules/typescript/bin/tsc -p tsconfig.json --incremental --tsBuildInfoFile dist/.tsbuildinfo); }
build || { echo "DOES NOT BUILD"; exit 1; }
if [ -z "$NOTEST" ]; then
(cd lib/digitraffic-common && TZ=UTC CI=1 node node_modules/vitest/vitest.mjs run --maxWorkers=4 --testTimeout=60000 --exclude src/__test__/utils/stop-watch.test.ts --reporter=json --outputFile=/tmp/sd.json >/dev/null 2>&1)
python3 - <<'P'
import json
d=json.load(open('/tmp/sd.json')); print("tests: passed",d['numPassedTests'],"failed",d['numFailedTests'])
P
fi
bash "$d/demo.sh" > /tmp/sd.demo 2>&1; echo "demo with patch: $? (wants nonzero)"; tail -3 /tmp/sd.demo
git checkout -q -- . && build
bash "$d/demo.sh" > /tmp/sd.demo 2>&1; echo "demo without: $? (wants 0)"; tail -3 /tmp/sd.demo
