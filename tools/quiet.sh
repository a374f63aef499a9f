#!/bin/bash
# tools/quiet.sh ID [PROPS...]: apply the behaviour-preserving edit quiet/ID.diff to a scratch copy of /repo (bound over
# the real path in a private mount namespace), run the repository's tests, and then the checks: all must stay quiet.
ID=$1; shift; PROPS=${*:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18}
[ "$PROPS" = none ] && PROPS=
W=/tmp/qw-$ID
rm -rf "/tmp/qw-$ID"
mkdir -p $W/verif
cp -a /repo $W/repo
cp /verif/quiet/$ID.diff $W/patch.diff
(cd /verif && git ls-files -co --exclude-standard | grep -v -e "^seeded/" -e "^quiet/" | tar cf - -T - | tar xf - -C $W/verif)
export ID W PROPS
unshare -m bash -c '
mount --bind $W/repo /repo && mount --bind $W/verif /verif || exit 9
cd /repo
git apply $W/patch.diff 2>$W/apply.log || { echo "$ID PATCH-FAILED"; exit; }
bash /opt/vp/build.sh >$W/b1.log 2>&1 || { echo "$ID BUILD-FAILED"; exit; }
bash /opt/vp/test.sh $W/t.json >$W/t.log 2>&1
t=$(python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json")); r=json.load(open("$W/t.json"))
bs=set(b["stable"]); rs=set(r.get("passed") or r.get("pass") or [])
print("tests-ok" if bs<=rs else "TESTS-FAIL:"+",".join(sorted(bs-rs)[:3]))
P
)
c=""
for P in $PROPS; do
 s=$(date +%s)
 cd /verif; VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 python3 check.py $P >$W/c.$P.log 2>&1; r=$?
 d=$(( $(date +%s)-s ))
 if [ $r = 0 ] && ! grep -q "^VIOLATION" $W/c.$P.log; then c="$c $P:ok(${d}s)"; else c="$c $P:ALARM(rc=$r,${d}s)"; fi
done
echo "$ID $t$c"
'
mkdir -p /tmp/seedlogs/q-$ID; cp $W/*.log /tmp/seedlogs/q-$ID/ 2>/dev/null
rm -rf "/tmp/qw-$ID"
