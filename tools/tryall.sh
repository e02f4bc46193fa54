#!/bin/bash
# tryall.sh [ID...]: runs each planted bug's own check with the bug applied.
cd /verif
for d in ${@:-$(ls seeded)}; do
  c=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  echo "$d: $(bash tools/try.sh seeded/$d/patch.diff $c)"
done
