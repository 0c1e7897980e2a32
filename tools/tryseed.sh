#!/bin/bash
# tryseed.sh <id>...: runs the check of a planted bug on the scratch copy /tmp/seed.
cd /tmp/seed || exit 1
for id in "$@"; do
git checkout -q -- . ; git apply /verif/seeded/$id/patch.diff || continue
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
VERIF_REPO=/tmp/seed timeout 900 /verif/bin/gose -prop $p > /tmp/try.$id 2>&1; rc=$?
echo "$id $p exit=$rc $(grep -c '^VIOLATION' /tmp/try.$id) $(tail -1 /tmp/try.$id)"
done
git checkout -q -- .
