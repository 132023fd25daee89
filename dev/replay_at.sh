#!/bin/bash
# replay_at.sh REPO_COPY PROP [args]: runs the replay program against a copy of the repository
R=$1; P=$2; shift 2
S=/tmp/v/ra; mkdir -p $S; rm -rf $S/src; cp -r /verif/replay/src /verif/replay/Cargo.lock $S/
sed "s#/repo#$R#" /verif/replay/Cargo.toml > $S/Cargo.toml
cd $S && CARGO_TARGET_DIR=$S/target cargo build --release --offline 2>&1 | grep -E "^error" 
timeout 200 $S/target/release/vreplay fuzz $P --out /tmp/v/ra/fail.json "$@" 2>&1 | cut -c1-${CUT:-700}
