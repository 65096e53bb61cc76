#!/bin/bash
# usage: seedtest.sh ID [check ...]: confirm a planted bug and run checks on it
# (its own property when no check is named); leaves /repo as it was
set -u
S=/verif/seeded/$1; shift
PROP=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
[ -n "$(git -C /repo status --porcelain --untracked-files=no)" ] && { echo "repo dirty"; exit 2; }
D=$(mktemp -d /tmp/seeddemo.XXXXXX); cp -r $S/. $D; rm -f $D/*.diff $D/meta.json
run_demo() { (cd /repo && timeout 300 bash $D/demo.sh >$D/out.$1 2>&1; echo $?); }
clean=$(run_demo clean)
git -C /repo apply $S/patch.diff || { echo "does not apply"; exit 2; }
tests=$(bash /verif/tools/t.sh)
bug=$(run_demo bug)
echo "$(basename $S) $PROP demo clean=$clean bug=$bug tests: $tests"
[ "$clean" != 0 ] && tail -5 $D/out.clean
for c in ${@:-$PROP}; do
  [ "$c" = none ] && continue
  t0=$(date +%s); out=$(cd /verif && timeout 900 bash run.sh $c quick 2>&1); rc=$?
  echo "   check $c rc=$rc $(( $(date +%s)-t0 ))s $(echo "$out" | grep -m1 VIOLATION)"
  rm -f /verif/replays/$c.json
done
git -C /repo checkout -q -- .
rm -rf $D
