#!/bin/bash
# usage: trybug.sh BUGID [PROP] -- applies the planted bug, runs the check, undoes it
d=/verif/seeded/$1
p=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo apply $d/patch.diff || exit 3
cd /verif && python3 check.py $p --no-evidence 2>&1 | tail -4
git -C /repo checkout -- .
