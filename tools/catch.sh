#!/bin/bash
# usage: catch.sh ID...: runs the check of its property against each planted bug, all in a scratch copy
[ $# -gt 0 ] || set -- $(ls ${SEEDED:-/verif/seeded})
W=${CATCH:-/tmp/catch}
mkdir -p $W
if [ ! -d $W/repo ] || [ "$(git -C $W/repo rev-parse HEAD)" != "$(git -C /repo rev-parse HEAD)" ]; then
    rm -rf "$W/repo"
    git clone -q /repo $W/repo
fi
git -C $W/repo checkout -q -- .
mkdir -p $W/verif/evidence
for f in check.sh env.sh known_findings.json tools properties.jsonl MANIFEST.json; do cp -a /verif/$f $W/verif/; done
rsync -a --delete --exclude target --exclude /Cargo.toml /verif/sim/ $W/verif/sim/ 2>/dev/null || {
    mkdir -p $W/verif/sim; cp -a /verif/sim/src /verif/sim/edges /verif/sim/Cargo.lock $W/verif/sim/; }
sed "s#\"/repo\"#\"$W/repo\"#" /verif/sim/Cargo.toml > $W/verif/sim/Cargo.toml.new
cmp -s $W/verif/sim/Cargo.toml.new $W/verif/sim/Cargo.toml || cp $W/verif/sim/Cargo.toml.new $W/verif/sim/Cargo.toml
sed -i "s#cd /repo#cd $W/repo#" $W/verif/env.sh
for id in "$@"; do
    d=${SEEDED:-/verif/seeded}/$id
    p=${PROP:-$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' $d/meta.json)}
    git -C $W/repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
    out=$(VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick bash $W/verif/check.sh $p quick 2>&1); rc=$?
    git -C $W/repo checkout -q -- .
    if [ $rc -eq 1 ] && grep -q "^VIOLATION property=$p " <<<"$out"; then
        echo "$id: caught by $p: $(grep -m1 '^found by' <<<"$out" | cut -c1-200)"
    else
        echo "$id: MISSED by $p (rc $rc): $(tail -1 <<<"$out" | cut -c1-300)"
    fi
done
