#!/bin/bash
# usage: plant.sh ID...: confirms planted bugs in a scratch copy of /repo: the patch applies, builds, passes
# the stable tests, and the demonstration passes without and fails with it.
[ $# -gt 0 ] || set -- $(ls /verif/seeded)
S=/tmp/plant
mkdir -p $S
if [ ! -d $S/repo ] || [ "$(git -C $S/repo rev-parse HEAD)" != "$(git -C /repo rev-parse HEAD)" ]; then
    rm -rf /tmp/plant/repo
    git clone -q /repo $S/repo
    cp -a /repo/target $S/repo/target 2>/dev/null
fi
R=$S/repo
export DEMO_TARGET=$S/demo-target
bad=0
for id in "$@"; do
    d=/verif/seeded/$id
    git -C $R checkout -q -- .
    rm -rf /tmp/plant/demo
    mkdir -p $S/demo
    find $d -maxdepth 1 -type f ! -name '*.diff' ! -name meta.json -exec cp {} $S/demo \;
    (cd $R && timeout 300 bash $S/demo/demo.sh >$S/clean.log 2>&1); clean=$?
    git -C $R apply $d/patch.diff || { echo "$id: does not apply"; bad=1; continue; }
    (cd $R && cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 >$S/test.log 2>&1); t=$?
    (cd $R && timeout 300 bash $S/demo/demo.sh >$S/patched.log 2>&1); patched=$?
    git -C $R checkout -q -- .
    n=$(grep -c '^test .* \.\.\. ok' $S/test.log)
    if [ $clean -eq 0 ] && [ $patched -ne 0 ] && [ $t -eq 0 ]; then
        echo "$id: ok ($n tests pass; demo: $(tail -1 $S/patched.log | cut -c1-150))"
    else
        echo "$id: BAD clean=$clean tests=$t ($n ok) patched=$patched"
        tail -n 5 $S/clean.log; tail -n 5 $S/patched.log; grep -E '^error|FAILED|panicked' $S/test.log | head
        bad=1
    fi
done
exit $bad
