#!/bin/bash
# replay_ast.sh TARGETDIR : builds the sm_ast replay driver against /repo's current tree
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
source /opt/vp/env.sh
cd "$V/ast" && CARGO_TARGET_DIR=$1 cargo build --offline
