#!/bin/bash
# run every registered check (quick), print the summary lines
cd /verif
for p in ${@:-$(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))")}; do
  /opt/venv/bin/python check.py $p 2>&1 | cut -c1-300 | tail -8; done
