#!/bin/bash
# try_check.sh SEED [PROP]: does the check catch the planted bug?
for id in "$@"; do
d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "repo dirty"; exit 2; }
git -C /repo apply --whitespace=nowarn $d/patch.diff || exit 2
(cd /verif && ./check $prop > /tmp/seed.check 2>&1); c=$?
git -C /repo checkout -- .
echo "$id [$prop] rc $c: $(python3 /verif/tools/show.py $prop 0 2>/dev/null | head -1 | cut -c1-200)"
done
