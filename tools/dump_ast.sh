#!/bin/bash
# dump_ast.sh OUT.json TARGETDIR : rustc (through mirdump) compiles sm_ast from /repo's current tree, against the stand-ins in /verif/ast, and writes its MIR
set -e
OUT=$1; TD=$2
V=$(cd "$(dirname "$0")/.." && pwd)
source /opt/vp/env.sh
if [ ! "$V/mirdump/target/debug/mirdump" -nt "$V/mirdump/src/main.rs" ]; then (cd "$V/mirdump" && CARGO_TARGET_DIR="$V/mirdump/target" cargo build --offline -q); fi
export MIRDUMP_CRATE=sm_ast MIRDUMP_OUT=$OUT LD_LIBRARY_PATH=$(rustc --print sysroot)/lib RUSTC_WRAPPER=$V/mirdump/target/debug/mirdump CARGO_TARGET_DIR=$TD
export RUSTFLAGS="$RUSTFLAGS -Zalways-encode-mir"
export MIRDUMP_FORCE="nothing_"
export MIRDUMP_OPAQUE="num_bigint::;std::collections::;alloc::collections::;std::fmt;core::fmt;panicking;std::vec::Vec;alloc::vec;String;std::io;sm_parser;pest"
cd "$V/ast" && cargo check --offline -p sm_ast
