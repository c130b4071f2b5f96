#!/bin/bash
# check.sh <property> quick|thorough     decide a property
# check.sh replay <file>                 run a replay file
set -e
V=$(cd "$(dirname "$0")" && pwd)
export HOME=/root VERIF_DIR=$V
mkdir -p "$V/build"
exec 9>"$V/build/.lock"
flock 9
if [ "$1" = replay ]; then
  "$V/build.sh" plain race
  exec 9>&-
  if grep -q '"race": true' "$2"; then
    # a data race ends the process before it can say so itself
    r=0; env GORACE="halt_on_error=1 exitcode=66" "$V/build/simworker-race" replay "$2" || r=$?
    [ $r = 66 ] || exit $r
    echo "VIOLATION property=$(sed -n 's/.*"property": "\([^"]*\)".*/\1/p' "$2" | head -n 1) replay=$2"
    exit 1
  fi
  exec "$V/build/simworker" replay "$2"
fi
case $1 in
C01|C02|C03|C04|C05|C15|C16) "$V/build.sh" plain race ;;
*) "$V/build.sh" plain ;;
esac
exec 9>&-
exec "$V/build/simworker" check "$1" "${2:-quick}"
