#!/bin/bash
# trybug.sh <bug> [check...]: confirm a planted bug in scratch copies and run checks against it.
# Everything happens in a mount namespace in which /repo and /verif are copies.
ID=$1; shift
S=/verif/seeded/$ID
T=/tmp/try/$ID
rm -rf "/tmp/try/$ID"; mkdir -p $T
cp -a /repo $T/repo
mkdir $T/verif; cp -a /verif/{build.sh,check.sh,sim,known-findings.txt,properties.jsonl,MANIFEST.json} $T/verif/
mkdir -p $T/verif/build $T/verif/evidence $T/verif/replays
cp -a $S $T/bug
CH="$@"; [ -z "$CH" ] && CH=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cat > $T/run.sh <<X
mount --bind $T/repo /repo; mount --bind $T/verif /verif
cd /repo
export PATH=/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
if [ -z "$SKIP" ]; then
timeout 300 bash $T/bug/demo.sh >$T/demo0.log 2>&1; d0=\$?
fi
git apply $T/bug/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
if [ -z "$SKIP" ]; then
bash /opt/vp/build.sh >$T/build.log 2>&1 || { echo "$ID: does not build"; cat $T/build.log; exit 1; }
timeout 300 bash $T/bug/demo.sh >$T/demo1.log 2>&1; d1=\$?
bash /opt/vp/test.sh $T/out.json >$T/test.log 2>&1
t=\$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$T/out.json'))
def names(x):
    for k in ('passed','pass','stable','tests'):
        if k in x: return set(map(str,x[k]))
print(sorted(names(b)-names(o)))
P
)
echo "$ID: demo clean=\$d0 patched=\$d1; tests lost: \$t"
fi
for c in $CH; do
  cd /verif; timeout 900 ./check.sh \$c quick >$T/\$c.log 2>&1; r=\$?
  echo "$ID: \$c exit=\$r \$(grep -c ^VIOLATION $T/\$c.log) \$(grep -m1 -A3 ^VIOLATION $T/\$c.log | cut -c1-300 | tr '\n' ' ')"
done
X
sed -i 's/\\\$/$/g' $T/run.sh
for c in $CH; do :; done
VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick unshare -Urm bash -c "CH='$CH'; . $T/run.sh"
