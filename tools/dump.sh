#!/bin/bash
# dump.sh OUT.json TARGETDIR : rustc (through mirdump) compiles sm_algorithm from /repo's current tree and writes its MIR
set -e
OUT=$1; TD=$2
V=$(cd "$(dirname "$0")/.." && pwd)
source /opt/vp/env.sh
if [ ! "$V/mirdump/target/debug/mirdump" -nt "$V/mirdump/src/main.rs" ]; then (cd "$V/mirdump" && CARGO_TARGET_DIR="$V/mirdump/target" cargo build --offline -q); fi
export MIRDUMP_CRATE=sm_algorithm MIRDUMP_OUT=$OUT LD_LIBRARY_PATH=$(rustc --print sysroot)/lib RUSTC_WORKSPACE_WRAPPER=$V/mirdump/target/debug/mirdump CARGO_TARGET_DIR=$TD
export RUSTFLAGS="$RUSTFLAGS -Zalways-encode-mir"
export MIRDUMP_FORCE="num::Integer>::extended_gcd;num::Integer::extended_gcd;num::traits::Pow<u32>>::pow;powsign;<num::bigint::Sign as"
export MIRDUMP_OPAQUE="num_bigint::;std::collections::;alloc::collections::;std::fmt;core::fmt;panicking;std::vec::Vec;alloc::vec;String;std::io"
cargo check --manifest-path $MANIFEST --offline
