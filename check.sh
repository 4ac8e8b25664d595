#!/bin/bash
# check.sh <property> [extra arguments of the simulator]
# Builds the simulator against /repo's working tree and searches for violations of one property.
cd "$(dirname "$0")" || exit 2
. ./env.sh
prop=$1; shift
case $prop in
  C0[1-5]) bin=lksim-bus ;;
  C0[67]) bin=lksim-ident ;;
  *) bin=lksim-full ;;
esac
mkdir -p evidence replays
log=$(mktemp /tmp/lksim-build.XXXXXX)
if ! (cd sim && cargo build -q -p $bin --offline) >"$log" 2>&1; then
  echo "ERROR: building $bin failed"; tail -40 "$log"; rm -f "$log"; exit 2
fi
rm -f "$log"
exec ./sim/target/debug/$bin check "$prop" --tier "${VERIF_TIER:-quick}" --known /verif/KNOWN_FINDINGS --replays /verif/replays --evidence "/verif/evidence/$prop.json" "$@"
