#!/bin/bash
# catch.sh ID [PROPERTY...]: applies a planted bug to /repo, runs the check of
# its property (or of the given ones), undoes it.
id=$1; shift
d=/verif/seeded/$id
props=${@:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 1; }
git -C /repo apply $d/patch.diff || exit 1
for p in $props; do
  t0=$(date +%s)
  VERIF_SEED=${SEED:-1} bash /verif/check.sh $p quick >/tmp/catch.log 2>&1; rc=$?
  v=$(grep -m1 "^VIOLATION" /tmp/catch.log)
  if [ $rc = 1 ] && [ -n "$v" ]; then echo "$id: $p CATCHES in $(( $(date +%s)-t0 )) s: $(grep -m1 -E 'sig|message|fail' /tmp/catch.log | cut -c1-140)"
  else echo "$id: $p misses (rc $rc) $(tail -1 /tmp/catch.log | cut -c1-120)"; fi
done
git -C /repo checkout -q -- .
