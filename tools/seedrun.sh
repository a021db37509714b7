#!/bin/bash
# seedrun.sh ID [property]: applies a planted bug to /repo, runs the check of its property, undoes the edit
cd /verif
p=${2:-$(python3 -c "import json;print(json.load(open('seeded/$1/meta.json'))['property'])")}
git -C /repo apply /verif/seeded/$1/patch.diff || exit 9
VERIF_NO_REPLAY=${NR-1} python3 check.py $p > /tmp/seedrun_$1.log 2>&1; rc=$?
git -C /repo checkout -- .
echo "$1 $p exit $rc"; grep -E "^(fail|undec)|VIOLATION" /tmp/seedrun_$1.log | head -5
