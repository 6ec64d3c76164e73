#!/bin/bash
# ./check.sh PROPERTY [quick|thorough] [extra arguments of the harness]
# Builds the property's harness from /repo's working tree and runs it. Exit 0: held; 1: VIOLATION; other: error.
set -u
cd "$(dirname "$0")" || exit 3
V=$PWD
PROP=${1:?property}
TIER=${2:-${VERIF_TIER:-quick}}
shift; [ $# -gt 0 ] && shift
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=$TIER
REPO=${REPO:-/repo}
export REPO
case $PROP in
  C0[1-9]|C1[0-3]) H=ucf ;;
  C1[678]) H=chm ;;
  C19|C20|C21) H=clevel ;;
  C22|C27) H=tx ;;
  C23|C25) H=vec ;;
  C26) H=arr ;;
  C24) H=str ;;
  C28) H=xxh ;;
  C14|C15) H=ad ;;
  C29|C30) H=drv ;;
  C31|C32) H=sync ;;
  C33) H=tab ;;
  C34) H=det ;;
  *) echo "unknown property $PROP"; exit 3 ;;
esac
B=$V/build/$H
mkdir -p "$B" "$V/evidence" "$V/replays" || exit 3
if ! make -s -j"$(nproc)" -f "$V/src/Makefile" -C "$B" V="$V" "$H" >"$B/build.log" 2>&1; then
  tail -40 "$B/build.log"
  echo "error: the harness does not build"
  exit 2
fi
timeout -k 10 ${CHECK_TIMEOUT:-850} "$B/$H" --property "$PROP" --tier "$TIER" --seed "$VERIF_SEED" \
  --evidence "$V/evidence/$PROP.json" --replaydir "$V/replays" --known "$V/known_findings.txt" "$@"
RC=$?
exit $RC
