#!/bin/bash
# catch.sh ID... : applies each planted bug to /repo, runs its property's check, undoes it.
for id in "$@"; do
 git -C /repo status --short | grep -v '^??' && { echo dirty; exit 9; }
 prop=${PROP:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
 git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
 s=$(date +%s); out=$(bash /verif/check.sh $prop ${TIER:-quick} 2>&1); rc=$?
 git -C /repo checkout -- .
 echo "$id $prop rc=$rc $(( $(date +%s) - s ))s: $(echo "$out" | grep -v KNOWN | head -${LINES_:-2} | cut -c1-330)"
done
