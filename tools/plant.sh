#!/bin/bash
# plant.sh ID [PROP]: validates seeded/ID in a private mount namespace (a copy of /repo over /repo), then runs its check.
# Needs mount privileges; the order is: demo clean, apply, build, tests, demo with the patch, check.
id=$1
V=/verif
if [ -z "$PLANT_NS" ]; then
    PLANT_NS=1 exec unshare -m --propagation private bash "$0" "$@"
fi
W=/tmp/plant/run-$id$SUF
rm -rf "/tmp/plant/run-$id"; mkdir -p $W && cp -a /repo $W/repo && mkdir -p $W/verif && cp -a $V/dst $V/rt $V/check $V/known_findings.jsonl $V/properties.jsonl $W/verif/ && mkdir $W/verif/evidence $W/verif/replays
mkdir $W/demo && cp $V/seeded/$id/* $W/demo/ && rm -f $W/demo/*.diff $W/demo/meta.json
prop=${2:-$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")}
patch=$V/seeded/$id/patch.diff
cp $patch $W/patch.diff
mount --bind $W/repo /repo && mount --bind $W/verif /verif || exit 9
cd /repo && git checkout -q -- . && git clean -fdq
( cd /repo && bash $W/demo/demo.sh ) >$W/demo_clean.log 2>&1; c=$?
git apply $W/patch.diff || { echo "$id: DOES NOT APPLY"; exit 1; }
bash /opt/vp/build.sh >$W/build.log 2>&1; b=$?
( cd /repo && timeout 300 bash $W/demo/demo.sh ) >$W/demo_bug.log 2>&1; d=$?
t=skip
if [ -z "$NOTEST" ]; then
    bash /opt/vp/test.sh $W/out.json >$W/test.log 2>&1
    t=$(python3 - <<PY
import json
b=json.load(open("/opt/vp/BASELINE.json")); o=json.load(open("$W/out.json"))
bp=set(b["stable"]); op=set(o["passed"])
m=sorted(bp-op)
print(len(bp), "missing", len(m), m[:3])
PY
)
fi
r=skip
if [ -z "$NOCHECK" ]; then
    VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 $W/verif/check $prop --tier quick ${SECS:+--seconds $SECS} >$W/check.log 2>&1; r=$?
    cp -r $W/verif/replays $W/ 2>/dev/null
fi
echo "$id prop=$prop demo_clean=$c build=$b demo_bug=$d tests=[$t] check=$r $(grep -h VIOLATION $W/check.log 2>/dev/null | head -1)"
tail -3 $W/check.log 2>/dev/null | cut -c1-400
rm -rf $W/repo $W/verif
