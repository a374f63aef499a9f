#!/bin/bash
# tools/seed.sh ID [nocheck]: validate a planted bug in scratch copies of /repo and /verif, bound over
# the real paths in a private mount namespace; prints one line.
ID=$1; MODE=${2:-check}
W=/tmp/sw-$ID
rm -rf "/tmp/sw-$ID"
mkdir -p $W/verif
cp -a /repo $W/repo
cp -a /verif/seeded/$ID $W/seed; rm -f $W/seed/patch.diff $W/seed/meta.json
cp /verif/seeded/$ID/patch.diff $W/patch.diff
(cd /verif && git ls-files -co --exclude-standard | grep -v "^seeded/" | tar cf - -T - | tar xf - -C $W/verif)
PROP=$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")
[ -n "$PROPS" ] || PROPS=$PROP
export ID W MODE PROPS
unshare -m bash -c '
mount --bind $W/repo /repo && mount --bind $W/verif /verif || exit 9
cd /repo
bash /opt/vp/build.sh >$W/b0.log 2>&1 || { echo "$ID BASEBUILD-FAILED"; exit; }
timeout 300 bash $W/seed/demo.sh >$W/d0.log 2>&1; d0=$?
git apply $W/patch.diff 2>$W/apply.log || { echo "$ID PATCH-FAILED"; exit; }
bash /opt/vp/build.sh >$W/b1.log 2>&1 || { echo "$ID BUILD-FAILED"; exit; }
bash /opt/vp/test.sh $W/t.json >$W/t.log 2>&1
t=$(python3 - <<P
import json
def names(x):
    return x
b=json.load(open("/opt/vp/BASELINE.json")); r=json.load(open("$W/t.json"))
bs=set(b["stable"]); rs=set(r.get("passed") or r.get("pass") or [])
print("tests-ok" if bs<=rs else "TESTS-FAIL:"+",".join(sorted(bs-rs)[:3]))
P
)
s=$(date +%s); timeout 300 bash $W/seed/demo.sh >$W/d1.log 2>&1; d1=$?; e=$(( $(date +%s)-s ))
c=""
if [ $MODE = check ]; then for P in $PROPS; do
 s=$(date +%s)
 cd /verif; VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 python3 check.py $P >$W/c.$P.log 2>&1; r=$?
 v=$(grep -c "^VIOLATION property=$P " $W/c.$P.log)
 if [ $r = 1 ] && [ $v -ge 1 ]; then c="$c $P:CAUGHT($(( $(date +%s)-s ))s)"; else c="$c $P:MISSED(rc=$r,$(( $(date +%s)-s ))s)"; fi
done; fi
ok=VALID; [ $d0 = 0 ] && [ $d1 != 0 ] && [ "$t" = tests-ok ] || ok=INVALID
echo "$ID $ok demo=$d0/$d1(${e}s) $t$c"
'
mkdir -p /tmp/seedlogs/$ID; cp $W/*.log /tmp/seedlogs/$ID/ 2>/dev/null
rm -rf "/tmp/sw-$ID"
