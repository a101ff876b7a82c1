#!/bin/bash
# For each seeded change: which checks report it (all registered checks unless PIDs are given in $PIDS).
export GROOT_REPO=/tmp/ts/repo
rm -rf /tmp/ts; mkdir -p /tmp/ts/ev
for d in ${@:-/verif/seeded/*/}; do
  rm -rf /tmp/ts/repo; mkdir -p /tmp/ts/repo; (cd /repo && git ls-files -z | xargs -0 cp --parents -t /tmp/ts/repo)
  (cd /tmp/ts/repo && git init -q . && git apply $d/patch.diff) || { echo "$d does not apply"; continue; }
  own=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  if [ "$ALL" ]; then ids=$(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']))"); else ids=$own; fi
  hit=""
  for p in $ids; do (cd /verif && python3 check.py $p > /tmp/ts/ev/$p.log 2>&1); grep -q ^VIOLATION /tmp/ts/ev/$p.log && hit="$hit $p"; grep -q "not decided: " /tmp/ts/ev/$p.log && hit="$hit ($p undecided)"; done
  echo "$(basename $d) [$own]:$hit"
done
rm -rf /tmp/ts/repo
