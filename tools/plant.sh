#!/bin/bash
# plant.sh ID...: for each seeded change, in a scratch copy of /repo: demo on the clean tree, apply, build and test, demo, the property's check
for id in "$@"; do
w=$(mktemp -d /tmp/plant.XXXXXX)
d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git clone -q --shared /repo $w/repo
cp -a /opt/vp $w/vp; rm -f $w/vp/BASELINE.json
grep -rlI "/repo\|/opt/vp" $w/vp | xargs sed -i "s#/repo\b#$w/repo#g; s#/opt/vp\b#$w/vp#g"
mkdir $w/demo; cp -a $d/. $w/demo/; rm -f $w/demo/*.diff $w/demo/meta.json
( cd $w/repo && timeout 300 bash $w/demo/demo.sh >$w/pd0.log 2>&1 ); r0=$?
git -C $w/repo apply $d/patch.diff || { echo "$id: DOES NOT APPLY"; rm -rf $w; continue; }
bash $w/vp/test.sh $w/rt.json >$w/rt.log 2>&1
t=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open('$w/rt.json'))
miss=[x for x in b if x not in set(r['passed'])]
print("broken",len(miss),miss[:3])
P
)
( cd $w/repo && timeout 300 bash $w/demo/demo.sh >$w/pd1.log 2>&1 ); r1=$?
c=$(cd /verif && VERIF_REPO=$w/repo timeout 900 python3 run_check.py $prop 2>&1); rc=$?
echo "$id prop=$prop demo_clean=$r0 demo_bug=$r1 tests='$t' check_exit=$rc $(echo "$c" | grep -m1 VIOLATION -B1 | tr '\n' ' ' | cut -c1-300)"
[ "$rc" = 2 ] && echo "$c" | head -5
rm -rf $w
done
