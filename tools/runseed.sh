#!/bin/bash
# runseed.sh SEED [CHECK]: applies to /repo, runs the property's check, undoes
s=$1; c=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")}
git -C /repo apply /verif/seeded/$s/patch.diff || exit 9
cd /verif; timeout 900 /opt/venv/bin/python check.py $c > /tmp/rs-$s.out 2>&1; rc=$?
git -C /repo checkout -- .
echo "$s $c rc=$rc $(grep -c ^VIOLATION /tmp/rs-$s.out) violations; $(grep wall= /tmp/rs-$s.out | cut -c1-150)"; grep -A1 ^VIOLATION /tmp/rs-$s.out | sed -n 2p | cut -c1-200
