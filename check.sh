#!/bin/bash
# usage: check.sh <property id> [quick|thorough]
# Rebuilds the harness against /repo's working tree and runs one property's check.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
. ./env.sh
mkdir -p evidence replay work
fail() { tail -50 "work/build-$1.log"; echo "ERROR property=$1 build failed"; exit 2; }
( cd harness && cargo build --offline --quiet ) > "work/build-$1.log" 2>&1 || fail "$1"
case "$1" in
C25 | C26 | C27)
    # these also run the command line tool
    cargo build --offline --locked --quiet --manifest-path /repo/Cargo.toml -p carcara-cli \
        --target-dir harness/target/cli > "work/build-$1.log" 2>&1 || fail "$1"
    ;;
esac
exec ./harness/target/debug/vharness run "$1" "${2:-${VERIF_TIER:-quick}}"
