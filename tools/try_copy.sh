#!/bin/bash
# try_copy.sh ID...: does the check catch the planted bug?  On a scratch copy of /repo (see VP_REPO), so /repo stays as it is
S=$(mktemp -d /tmp/trycopy.XXXXXX); cp -a /repo $S/repo
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C $S/repo apply --whitespace=nowarn $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  find $S/repo -name '*$py.class' -delete
  (cd /verif && VP_REPO=$S/repo ./check $prop > $S/out 2>&1); c=$?
  git -C $S/repo checkout -q -- .
  echo "$id [$prop] rc $c: $(grep -c '^  run' $S/out) $(grep -m1 '^  run' $S/out | cut -c1-150)"
done
rm -rf "$S"
