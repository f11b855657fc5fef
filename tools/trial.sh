#!/bin/bash
# trial.sh <seed id> [check...]: tries a planted bug in /repo's working tree and undoes it.
cd /verif
d=/verif/seeded/$1; shift
checks=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo not clean"; exit 9; }
w=$(mktemp -d)
cp -r $d $w/demo; rm -f $w/demo/*.diff $w/demo/meta.json
( cd /repo && timeout 300 bash $w/demo/demo.sh > $w/log0 2>&1 ); r0=$?
git -C /repo apply $d/patch.diff || { echo "does not apply"; exit 9; }
trap 'git -C /repo checkout -q -- .; rm -rf $w' EXIT
bash /opt/vp/test.sh $w/t.json > $w/tlog 2>&1
python3 - $w/t.json <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=json.load(open(sys.argv[1]))
print("tests: ok" if b<=set(t['passed']) else "tests: MISSING %s"%(b-set(t['passed'])))
P
( cd /repo && timeout 300 bash $w/demo/demo.sh > $w/log1 2>&1 ); r1=$?
echo "demo: clean $r0, patched $r1"; [ $r0 = 0 ] || tail -5 $w/log0; tail -3 $w/log1
for c in $checks; do python3 check.py $c > $w/c 2>$w/ce; echo "check $c: exit $?"; head -${LINES_SHOWN:-3} $w/c | cut -c1-300; tail -2 $w/ce; done
