#!/bin/bash
# plant.sh ID [check]: try seeded/ID in an overlay copy of /repo (user namespace; nothing outside scratch is written):
# demo on the unchanged tree, then patch, build, tests against the baseline, demo, and (with "check") the property's check.
id=$1; d=/verif/seeded/$id; what=${2:-all}
o=$(mktemp -d /tmp/plant.XXXXXX); mkdir $o/u $o/w
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
unshare -Urm bash -c '
set -u; o=$1; d=$2; what=$3; prop=$4
mount -t overlay overlay -o lowerdir=/repo,upperdir=$o/u,workdir=$o/w,userxattr /repo || exit 9
cd /repo
if [ $what = all ]; then
  bash $d/demo.sh >$o/demo0 2>&1; r=$?; [ $r = 0 ] || { echo "DEMO FAILS UNCHANGED rc=$r"; tail -5 $o/demo0; exit 1; }
fi
git apply $d/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 1; }
if [ $what = all ]; then
  bash /opt/vp/build.sh >$o/build 2>&1 || { echo "BUILD FAILS"; grep -m3 error: $o/build; exit 1; }
  bash /opt/vp/test.sh $o/t.json >$o/test 2>&1
  python3 - $o/t.json <<PY
import json,sys
b=json.load(open("/opt/vp/BASELINE.json")); b=b["stable"]
t=set(json.load(open(sys.argv[1]))["passed"])
m=[x for x in b if x not in t]
print("TESTS MISSED %d %s"%(len(m),m[:4]) if m else "tests ok")
PY
  bash $d/demo.sh >$o/demo1 2>&1; echo "demo with patch rc=$? $(tail -1 $o/demo1)"
fi
cd /verif; python3 check.py $prop >$o/chk 2>&1; echo "check rc=$?"; grep -E "VIOLATION" $o/chk | head -3
' x $o $d $what $prop 2>&1 | sed "s/^/$id: /"
rm -rf "$o"
