#!/bin/bash
# seedtest.sh <seed id> [check ids...] : confirm a planted bug in a scratch copy of /repo (bind-mounted in a private namespace)
# and run its property's check (or the listed ones) against it.  Development aid, not a registered command.
id=$1; shift; V=/verif; S=$V/seeded/$id
[ -f $S/patch.diff ] || { echo "no $S/patch.diff"; exit 2; }
T=$(mktemp -d /tmp/seed.XXXXXX); export V S T id CHECKS="$*"
cp -a /repo $T/repo
unshare -Urm bash -c '
mount --bind $T/repo /repo; cd /repo; mkdir $T/d; cp -r $S/. $T/d/; rm -f $T/d/*.diff $T/d/meta.json
if [ -z "$NODEMO" ]; then
bash /opt/vp/build.sh >/dev/null 2>&1
bash $T/d/demo.sh >$T/o1 2>&1; a=$?
git -C /repo apply $S/patch.diff || { echo "$id: patch does not apply"; exit 2; }
bash /opt/vp/test.sh $T/t.json >$T/o2 2>&1
python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json")); t=json.load(open("$T/t.json"))
base=set(b.get("passed",b.get("stable",b)) if isinstance(b,dict) else b)
p=set(t["passed"]); print("$id: tests missing/failed:", len(base-p), sorted(base-p)[:3])
P
bash $T/d/demo.sh >$T/o3 2>&1; c=$?
echo "$id: demo unpatched rc=$a patched rc=$c: $(tail -1 $T/o3 | cut -c1-200)"
else git -C /repo apply $S/patch.diff || exit 2; fi
[ -n "$CHECKS" ] || CHECKS=$(python3 -c "import json;print(json.load(open(\"$S/meta.json\"))[\"property\"])")
[ "$CHECKS" = none ] && exit 0
rm -rf $T/v; mkdir $T/v; cp -a $V/checks $V/engine $V/build $V/specs $V/tools $V/known_findings.json $T/v/
for k in $CHECKS; do s=$(date +%s); (cd $T/v && timeout 900 bash checks/run.sh $k >$T/k 2>&1); r=$?; e=$(date +%s); echo "$id: check $k rc=$r $((e-s))s: $(grep -m1 -E "^\[|NO ANSWER" $T/k | cut -c1-260)"; done
'
rm -rf "$T"
