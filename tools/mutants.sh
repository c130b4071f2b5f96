#!/bin/bash
# mutants.sh FILE FROM TO STEP OUT "ID:n ID:n ...": dev tool. For every STEP-th mutant of FILE (see
# sim/cmd/mutate) runs surveys of the given properties until one notices; appends a line per mutant to OUT.
F=$1 A=$2 B=$3 S=$4 OUT=$5 CH=$6
T=$(mktemp -d /tmp/mut.XXXXXX)
cp -a /repo $T/repo
mkdir $T/verif; cp -a /verif/{build.sh,check.sh,sim,known-findings.txt} $T/verif/; mkdir $T/verif/build
cat > $T/run.sh <<'Y'
mount --bind $T/repo /repo; mount --bind $T/verif /verif
for ((i=A;i<B;i+=S)); do
  (cd /repo; git checkout -q -- .; /tmp/mutate $F $i > $T/m.go; cp $T/m.go $F)
  d=$(cd /repo; git checkout -q -- $F; /tmp/mutate $F | grep "^$i "; cp $T/m.go $F)
  if ! /verif/build.sh plain >$T/b.log 2>&1; then echo "NOBUILD $d" >> $OUT; continue; fi
  r=SURVIVED
  for c in $CH; do
    k=${c%%:*}; n=${c##*:}
    (ulimit -v 8000000; SURVEY_FIRST=1 timeout 120 /verif/build/simworker survey $k $n >$T/s.log 2>&1); e=$?
    if [ $e != 0 ]; then r="killed by $k: $(grep -m1 -aE 'KILLED|HANG|fatal|panic' $T/s.log | cut -c1-160)"; [ $e = 124 ] && r="TIMEOUT $k"; break; fi
  done
  echo "$r | $d" >> $OUT
done
Y
export F A B S OUT CH T
unshare -Urm bash $T/run.sh
rm -rf "$T"
