#!/bin/bash
# scratch.sh Cnn...   builds the simulator as it is on disk into /tmp/x and runs checks there (RUNS, VERIF_SEED); nothing under /verif changes
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
T=/tmp/x/t; R=/tmp/x/v
mkdir -p $R/target/release $R/target/checked $R/evidence $R/replays
rm -rf $T/*/.fingerprint/svgdom-*
cd "$(dirname "$0")/../sim" && for p in release checked; do cargo build -q --offline --profile $p --target-dir $T 2>&1 | grep -E '^error' -A12; cp $T/$p/svgsim $R/target/$p/; done
cp ../known_findings.txt ../properties.jsonl $R
for c in "$@"; do SVGSIM_ROOT=$R SVGSIM_RUNS=$RUNS $R/target/release/svgsim check $c; done
