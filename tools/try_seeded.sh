#!/bin/bash
# try_seeded.sh [id...]: applies each planted bug to /repo, runs the check of its property (or of $PROPS) and undoes it.
cd /verif || exit 1
for id in "${@:-$(ls seeded)}"; do for id in $id; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id NOAPPLY"; continue; }
  for q in ${PROPS:-$p}; do
    s=$(date +%s.%N)
    VERIF_SEED=${VERIF_SEED:-1} timeout 900 ./run.sh $q quick >/tmp/try.out 2>/tmp/try.err; r=$?
    e=$(date +%s.%N)
    echo "$id $q exit $r $(grep -m1 VIOLATION /tmp/try.out) $(echo "$e - $s" | bc | cut -c1-5)s"
  done
  git -C /repo checkout -q -- .
done; done
