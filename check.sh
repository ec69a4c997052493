#!/bin/bash
# check.sh PROPERTY quick|thorough: rebuild the simulator from /repo and search for violations of one property.
cd "$(dirname "$0")" || exit 2
prop=$1 tier=${2:-${VERIF_TIER:-quick}} seed=${VERIF_SEED:-1}
flavor=asan; [ "$prop" = C22 ] && flavor=race
./build.sh $flavor || exit 2
mkdir -p evidence build/replay
case $tier in quick) budget=${VRS_BUDGET:-32} min=15;; *) budget=${VRS_BUDGET:-600} min=60;; esac
./build/$flavor/vrssim --property $prop --tier $tier --seed $seed --budget $budget --min-budget $min \
  --evidence evidence/$prop.json --known known-findings.txt --out build/replay
rc=$?
if [ $rc = 1 ] && [ $flavor = race ]; then # which code the addresses in the report are
  grep -a "^data race" build/replay/replay-$prop.replay | head -1 | grep -ao "0x[0-9a-f]\{5,7\}" | head -20 |
    while read -r a; do echo "  $a $(addr2line -Cfie build/race/vrssim $a 2>/dev/null | paste - - | head -1 | cut -c1-200)"; done
fi
exit $rc
