#!/bin/bash
# usage: check.sh PROPERTY quick|thorough
# Builds the simulator with /repo's current working tree and searches for violations of PROPERTY.
cd "$(dirname "$0")" || exit 2
. ./env.sh
prop=$1
tier=${2:-quick}
seed=${VERIF_SEED:-1}
# builds (see sim/Cargo.toml) which explore the property, with the seconds the quick check spends there
case $prop in
C13) builds="woven:" ;;
C01) builds="checked: woven:10" ;;
*) builds="checked:" ;;
esac
# the code generated as it is shipped: no overflow checks, no debug assertions
[ "$tier" = thorough ] && builds="$builds shipped:"
first=1
for b in $builds; do
    name=${b%%:*} secs=${b#*:}
    build "$name" || { echo "error of the check: the simulator does not build"; exit 2; }
    [ "$first" ] || cp evidence/"$prop".json "$TARGET/$prop.before.json" || exit 2
    "$TARGET/$name/stsim" run --prop "$prop" --tier "$tier" --seed "$seed" ${secs:+$([ "$tier" = quick ] && echo --secs $secs)}
    rc=$?
    [ $rc -eq 0 ] || exit $rc
    [ "$first" ] || python3 tools/merge_evidence.py "$TARGET/$prop.before.json" evidence/"$prop".json || exit 2
    first=
    seed=$((seed + 1000000))
done
exit 0
