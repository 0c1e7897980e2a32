#!/bin/bash
# mkseed.sh <id>: takes the uncommitted change of the scratch copy ${SEED:-/tmp/seed} as
# /verif/seeded/<id>/patch.diff, confirms that it builds, passes the tests, that
# demo.sh passes on /repo and fails with the change.
id=$1; d=/verif/seeded/$id; cd ${SEED:-/tmp/seed} || exit 1
if [ -f $d/patch.diff ] && [ "$2" = again ]; then git checkout -q -- . ; git apply $d/patch.diff || exit 1; fi
git diff > $d/patch.diff; [ -s $d/patch.diff ] || { echo empty patch; exit 1; }
bash -c '. /opt/vp/env.sh; cd ${SEED:-/tmp/seed}; go build -tags cppbtree ./... && go vet -tags cppbtree ./datatree >/dev/null 2>&1; true' || echo BUILD FAILS
(cd /repo && bash $d/demo.sh >/tmp/demo.good 2>&1); a=$?
(cd ${SEED:-/tmp/seed} && bash $d/demo.sh >/tmp/demo.bad 2>&1); b=$?
echo "demo: unchanged=$a (want 0) changed=$b (want !=0)"; [ $a = 0 ] || tail -20 /tmp/demo.good; [ $b != 0 ] && tail -5 /tmp/demo.bad
if [ -z "$NOTEST" ]; then
sed -e 's#logs=/opt/vp/logs#logs=${SEED:-/tmp/seed}logs#' -e 's#^\. /opt/vp/env.sh#. /opt/vp/env.sh; cd ${SEED:-/tmp/seed}#' /opt/vp/test.sh > /tmp/seedtest.sh
bash /tmp/seedtest.sh /tmp/seedout.json >/dev/null 2>&1
python3 - <<'P'
import json
r=json.load(open('/tmp/seedout.json')); b=json.load(open('/opt/vp/BASELINE.json'))['stable']
ok=set(r['passed'])
bad=[t for t in b if t not in ok]
print('tests:', 'all stable pass' if not bad else 'FAIL %s'%bad)
P
fi
git checkout -q -- .
