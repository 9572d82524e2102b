#!/bin/bash
# builds the framework from the committed files
set -e
V=$(cd "$(dirname "$0")" && pwd)
source /opt/vp/env.sh
cd "$V/mirdump" && CARGO_TARGET_DIR="$V/mirdump/target" cargo build --offline -q
python3-vt -c 'import z3; print("z3", z3.get_version_string())'
mkdir -p "$V/evidence" "$V/build"
