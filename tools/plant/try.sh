#!/bin/bash
# try.sh [id...]: runs the check of its property on each planted bug, in a copy of /repo
cd "$(dirname "$0")/../.."
ids=${*:-$(ls seeded)}
[ -d ${WT:-/tmp/try-wt} ] || cp -a /repo ${WT:-/tmp/try-wt}
for b in $ids; do
  (cd ${WT:-/tmp/try-wt} && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git apply "$OLDPWD/seeded/$b/patch.diff") || { echo "$b does not apply"; continue; }
  p=${PROP:-$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")}
  out=$(VERIF_REPO=${WT:-/tmp/try-wt} VERIF_BUILD=${WT:-/tmp/try-wt}-build timeout 900 python3 harness/check.py --property $p --tier ${TIER:-quick} 2>&1); rc=$?
  echo "$b $p rc=$rc $(echo "$out" | grep -a 'differ; first' | cut -c1-160)"
done
