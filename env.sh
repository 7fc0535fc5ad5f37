# sourced by the other scripts
export STSIM_ROOT=$PWD
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
TARGET=$PWD/sim/target
export CARGO_TARGET_DIR=$TARGET
unset RUSTFLAGS RUST_BACKTRACE
export RUSTC_WRAPPER=$PWD/tools/rustc-wrap.sh

# build PROFILE: cargo decides by file times; make sure that it also sees a tree that was replaced by
# one with older times
build() {
    local now old
    mkdir -p "$TARGET"
    now=$(cd /repo && find . \( -name target -o -name .git \) -prune -o -type f -print | LC_ALL=C sort | xargs -d '\n' sha256sum | sha256sum)
    old=$(cat "$TARGET/$1.stamp" 2>/dev/null)
    if [ -n "$old" ] && [ "$now" != "$old" ]; then
        cargo clean --offline --manifest-path sim/Cargo.toml --profile "$1" -p strict_types -p stsim >/dev/null 2>&1
    fi
    rm -f "$TARGET/$1.stamp"
    export STSIM_BUILD=$1
    cargo build --offline --quiet --manifest-path sim/Cargo.toml --profile "$1" >"$TARGET/build.$1.log" 2>&1 || {
        tail -40 "$TARGET/build.$1.log"
        return 1
    }
    echo "$now" >"$TARGET/$1.stamp"
}
