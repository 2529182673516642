#!/bin/bash
# try_seed.sh ID...: apply seeded/ID to /repo, build, test, demo, its check; undo.  NOTEST=1 skips the tests
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "repo dirty"; exit 2; }
  rm -rf /tmp/seeddemo; cp -r $d /tmp/seeddemo; rm -f /tmp/seeddemo/patch.diff /tmp/seeddemo/meta.json
  (cd /repo && timeout 300 bash /tmp/seeddemo/demo.sh >/tmp/seed.out 2>&1) ; a=$?
  [ $a = 0 ] || { echo "$id: demo fails on clean tree ($a)"; tail -5 /tmp/seed.out; }
  git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  t=skipped
  bash /opt/vp/build.sh >/tmp/seed.build 2>&1 || echo "$id: build fails"
  if [ -z "$NOTEST" ]; then t=$(bash /opt/vp/test.sh /tmp/seed.json 2>&1 | grep -o "154 passed[^.]*" | tail -1); fi
  (cd /repo && timeout 300 bash /tmp/seeddemo/demo.sh >/tmp/seed.out 2>&1) ; b=$?
  (cd /verif && ./check $prop > /tmp/seed.check 2>&1); c=$?
  git -C /repo checkout -- .
  echo "$id [$prop]: clean demo $a, patched demo $b, tests: $t, check rc $c: $(grep -c '^  run' /tmp/seed.check) $(grep -m1 '^  run' /tmp/seed.check | cut -c1-150)"
done
bash /opt/vp/build.sh >/dev/null 2>&1
rm -rf /tmp/seeddemo
