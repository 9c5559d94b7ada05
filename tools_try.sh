#!/bin/bash
# apply each planted bug given (or all), run its property's check, undo
cd /verif
for s in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s does not apply"; continue; }
  out=$(timeout 900 /opt/venv/bin/python check.py $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$s $p rc=$rc $(echo "$out" | grep VIOLATION | head -2 | tr '\n' ' ')"
done
