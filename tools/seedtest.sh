#!/bin/bash
# tools/seedtest.sh ID [nocheck] -- applies a planted bug to /repo, runs tests, demo and its check, undoes it.
here=$(cd "$(dirname "$0")/.." && pwd); id=$1; d=$here/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
bash /opt/vp/build.sh >/dev/null 2>&1; (cd /repo; timeout 300 bash $d/demo.sh >/tmp/seed_demo0 2>&1); c0=$?
git apply $d/patch.diff || exit 2
bash /opt/vp/build.sh >/tmp/seed_build 2>&1 || echo "BUILD FAILS"
bash /opt/vp/test.sh /tmp/seed_t.json >/dev/null 2>&1; t=$(python3 -c "import json;d=json.load(open('/tmp/seed_t.json'));print(len(d['passed']),len(d['failed']))")
(timeout 300 bash $d/demo.sh >/tmp/seed_demo1 2>&1); c1=$?
r=-; if [ "$2" != nocheck ]; then (cd $here; timeout 900 python3 check.py $p ${TIER:-quick} > /tmp/seed_check.$id 2>&1); r=$?; fi
git checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1
echo "$id $p tests=$t demo clean=$c0 bug=$c1 check=$r $(grep -A1 -m1 VIOLATION /tmp/seed_check.$id 2>/dev/null | tail -1 | cut -c1-150)"
