#!/bin/bash
# plant.sh ID [nocheck|notest] : verify a seeded change in a private copy of /repo and /verif
# (both bind-mounted in a user namespace, so that the real ones are never touched).
id=$1; mode=$2
S=/verif/seeded/$id
W=/tmp/pl/$id
mkdir -p $W
if [ -z "$IN_NS" ]; then
  cp -a /repo $W/repo; mkdir -p $W/verif
  cp -a /verif/. $W/verif/
  cp -a $S $W/bug; find $W/bug \( -name '*.diff' -o -name meta.json \) -delete
  export IN_NS=1
  unshare -Urm bash "$0" "$@"; rc=$?
  rm -rf /tmp/pl/"$id"
  exit $rc
fi
mount --bind $W/repo /repo || exit 9
mount --bind $W/verif /verif || exit 9
cd /repo
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
bash /opt/vp/build.sh > $W/b0 2>&1 || { tail $W/b0; exit 9; }
timeout 300 bash $W/bug/demo.sh > $W/d0 2>&1; r0=$?
git apply $S/patch.diff || { echo "$id: patch does not apply"; exit 9; }
bash /opt/vp/build.sh > $W/b1 2>&1 || { tail $W/b1; echo "$id: build fails"; exit 9; }
timeout 300 bash $W/bug/demo.sh > $W/d1 2>&1; r1=$?
echo "$id: demo clean=$r0 patched=$r1"
[ $r0 = 0 ] || tail -5 $W/d0
[ $r1 = 0 ] && tail -5 $W/d1
if [ "$mode" != notest ]; then
  bash /opt/vp/test.sh $W/out.json > $W/t 2>&1
  python3 - $W/out.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
st=b.get('stable') or b.get('passed') or b.get('tests')
lost=[t for t in st if t not in set(o['passed'])]
print("stable tests lost:",len(lost),lost[:3])
P
fi
if [ "$mode" != nocheck ]; then
  cd /verif; export VERIF_SEED=1 VERIF_TIER=quick
  for p in ${PROPS:-$prop}; do
    cmd=$(python3 -c "
import json
m=json.load(open('/verif/MANIFEST.json'))
for c in m['checks']:
    if c.get('property',c.get('id'))=='$p' or '$p' in str(c.get('properties','')): print(c['quick_cmd'] if 'quick_cmd' in c else c['quick']); break")
    s=$(date +%s); timeout 900 bash -c "$cmd" > $W/c 2>&1; rc=$?
    echo "$id: check $p rc=$rc ($(( $(date +%s)-s )) s) $(grep -m1 VIOLATION $W/c)"
    grep -A12 -m1 VIOLATION $W/c | head -${LINES_C:-3}
    [ $rc = 2 ] && tail -5 $W/c
  done
fi
exit 0
