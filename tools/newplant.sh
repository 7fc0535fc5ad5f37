#!/bin/bash
# usage: newplant.sh ID PROPERTY "needs" "what it breaks" < demo.rs ; the patch is what is changed in /tmp/plant/repo
d=/verif/seeded/$1
mkdir -p $d
git -C /tmp/plant/repo diff > $d/patch.diff
git -C /tmp/plant/repo checkout -q -- .
cat > $d/demo.rs
python3 - "$@" <<'P'
import json,sys
_, id, prop, needs, what = sys.argv
json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(f"/verif/seeded/{id}/meta.json", "w"), indent=1)
P
cat > $d/demo.sh <<'P'
#!/bin/bash
# run with the repository as the working directory: builds and runs demo.rs against it in a scratch crate
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
strict_types = { path = "$repo", features = ["all"] }
strict_encoding = "2.9.1"
amplify = "4.9.0"
[profile.dev]
debug = false
incremental = false
[workspace]
EOF
export CARGO_TARGET_DIR=${DEMO_TARGET:-$work/target}
cargo build --offline --quiet --manifest-path "$work/Cargo.toml" || exit 3
cd "$work" && timeout 120 "$CARGO_TARGET_DIR/debug/demo"
P
