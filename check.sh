#!/bin/bash
# check.sh PROPERTY [quick|thorough]: exit 0 held, 1 violation, 2 the check itself failed
cd "$(dirname "$(readlink -f "$0")")" || exit 2
prop=$1 tier=${2:-${VERIF_TIER:-quick}}
mkdir -p evidence replays
log=$(mktemp /tmp/promsim-build.XXXXXX)
if ! ./build-sim.sh >"$log" 2>&1; then
  tail -40 "$log"; rm -f "$log"
  echo "BUILD-FAILED: the simulator cannot be built from /repo's working tree"
  exit 2
fi
rm -f "$log"
exec sim/target/x86_64-unknown-linux-gnu/release/simrun check "$prop" --tier "$tier" --seed "${VERIF_SEED:-1}" \
  --out "$PWD/evidence/$prop.json" --replays "$PWD/replays" --known "$PWD/known-findings.txt"
