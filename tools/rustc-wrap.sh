#!/bin/sh
# rustc for the simulator: in its build "woven", adds the callbacks (see sim/edges) at every branch to the code under test and
# to the simulator, in which generic code of the former is compiled, and at every operation on an atomic variable to the former
atoms=
case "$STSIM_BUILD $* " in
woven*" --crate-name strict_types "*) atoms=" function(tsan)" ;;
esac
case "$STSIM_BUILD $* " in
woven*" --crate-name strict_types "* | woven*" --crate-name strict_encoding "* | woven*" --crate-name amplify "* | woven*" --crate-name stsim "*)
    exec "$@" -C "passes=sancov-module$atoms" -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard \
        -C llvm-args=-sanitizer-coverage-prune-blocks=0 -C llvm-args=-tsan-instrument-func-entry-exit=0
    ;;
esac
exec "$@"
