#!/bin/bash
# development helper: extract facts of /repo (or $1) into /verif/.cache/facts (or $2)
R=${1:-/repo}; O=${2:-/verif/.cache/facts}; T=${3:-/verif/.cache/target}
rm -rf $T/release/build/starlit* $T/release/.fingerprint/starlit* $T/release/incremental; export CARGO_INCREMENTAL=0
cd $R && STARLIT_FACTS_DIR=$O LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib RUSTC_WORKSPACE_WRAPPER=/verif/driver/target/release/starlit-facts CARGO_TARGET_DIR=$T cargo +nightly check --release --workspace --offline 2>&1 | grep -E "^(error|warning: unused)|panicked" -A12
ls -la $O
