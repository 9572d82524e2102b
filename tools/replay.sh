#!/bin/bash
# replay.sh TARGETDIR : builds the replay driver against /repo's current tree
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
source /opt/vp/env.sh
cd "$V/replay" && CARGO_TARGET_DIR=$1 cargo build --offline
