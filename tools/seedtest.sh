#!/bin/bash
# tools/seedtest.sh SEEDID [checks...]: confirms a planted bug in a scratch copy of /repo
# (builds, stable tests pass, demo passes before and fails after) and runs the checks on it.
# SKIPBUILD=1: only the checks.
id=$1; shift
V=$(cd "$(dirname "$0")/.." && pwd); S=$V/seeded/$id
D=/tmp/sd/$id; rm -rf "$D"; mkdir -p "$D"; cp -a /repo "$D/repo"; R=$D/repo
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
checks=${*:-$prop}
say() { echo "[$id] $*"; }
if [ -z "$SKIPBUILD" ]; then
  mkdir $D/demo; cp $S/* $D/demo/; rm -f $D/demo/*.diff $D/demo/meta.json
  (cd $R && timeout 300 bash $D/demo/demo.sh) >$D/pre.log 2>&1 && say "demo ok before" || { say "DEMO FAILS ON UNCHANGED"; tail -5 $D/pre.log; }
fi
git -C $R apply $S/patch.diff || { say "PATCH DOES NOT APPLY"; exit 1; }
if [ -z "$SKIPBUILD" ]; then
  mkdir $D/vp; for f in build.sh run_tests.py results.py test.sh BASELINE.json; do sed "s#/repo#$R#g; s#/opt/vp/#$D/vp/#g" /opt/vp/$f > $D/vp/$f; done
  rm -rf $R/_build
  bash $D/vp/test.sh $D/out.json >$D/build.log 2>&1
  python3 - "$D" <<'P'
import json,sys
o=json.load(open(sys.argv[1]+'/out.json')); b=json.load(open('/opt/vp/BASELINE.json'))
want=b.get('passed') or b.get('stable') or b
if isinstance(want,dict): want=want.get('tests',[])
miss=[t for t in want if t not in o['passed']]
print('[seed] tests passed %d missing %s'%(len(o['passed']),miss))
P
  (cd $R && timeout 300 bash $D/demo/demo.sh) >$D/post.log 2>&1 && say "DEMO PASSES WITH THE PATCH" || say "demo fails after (good)"
fi
for c in $checks; do
  VF_REPO=$R $V/bin/check $c quick > $D/$c.log 2>&1; rc=$?
  say "check $c rc=$rc $(grep -m1 -o 'VIOLATION.*' $D/$c.log) $(grep -m1 'rejected:' $D/$c.log | cut -c1-150) $(grep CHECK-ERROR $D/$c.log | cut -c1-300)"
done
rm -rf "$D/repo" "$D/vp"
