#!/bin/bash
# usage: replay.sh FILE: reproduces the violation recorded in FILE (exit 1 when it is reproduced)
file=$(realpath "$1")
cd "$(dirname "$0")" || exit 2
. ./env.sh
profile=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1])).get("build", "checked"))' "$file")
build "$profile" || exit 2
exec "$TARGET/$profile/stsim" replay "$file"
