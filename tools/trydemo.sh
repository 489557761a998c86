#!/bin/bash
# trydemo.sh <seed id>...: demo and check with the change applied to /repo.
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s: does not apply"; continue; }
  bash /verif/seeded/$s/demo.sh >/tmp/demo.$s.log 2>&1; d=$?
  VERIF_SEED=1 timeout 900 bash /verif/run.sh $p quick >/tmp/check.$s.log 2>&1; c=$?
  git -C /repo checkout -q -- .
  echo "$s ($p): demo rc=$d check rc=$c: $(grep VIOLATION /tmp/check.$s.log | head -1 | cut -c1-150)"
done
