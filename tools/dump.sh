#!/bin/bash
# dump.sh NAME CARGO-ARGS: type-checks the witness crate against /repo and writes build/NAME.json
cd /verif/witness
export CARGO_TARGET_DIR=/verif/build/wit-$1 MIRDUMP_CRATE=witness MIRDUMP_OUT=/verif/build/$1.json MIRDUMP_STOP=/verif/engine/stop.txt MIRDUMP_SHIMS=/verif/engine/shims.txt RUSTC_WRAPPER=/verif/driver/target/debug/mirdump RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings" LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib
shift
touch src/lib.rs
exec cargo +nightly check --offline "$@"
