#!/bin/bash
# Builds the simulator from the committed files.
cd "$(dirname "$0")" || exit 2
. ./env.sh
build checked && build woven && build shipped
