#!/bin/bash
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
. ./env.sh
mkdir -p evidence replay work
( cd harness && cargo build --offline --quiet ) || exit 1
cargo build --offline --locked --quiet --manifest-path /repo/Cargo.toml -p carcara-cli --target-dir harness/target/cli
