#!/bin/bash
# Runs with cwd = the repository. Builds a small program that executes the real entrypoint natively and
# plays the history in crate/src/demo.rs; exit 0 if every assertion holds.
. /opt/vp/env.sh
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
TMP=$(mktemp -d) || exit 9
trap 'rm -rf "$TMP"' EXIT
cp -r "$HERE/crate/." "$TMP/" || exit 9
sed -i "s#@REPO@#$REPO#" "$TMP/Cargo.toml"
cd "$TMP" || exit 9
unset RUSTFLAGS
CARGO_TARGET_DIR=${DEMO_TARGET:-$TMP/target} CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 cargo build --offline > build.log 2>&1 || { tail -30 build.log; exit 8; }
"${DEMO_TARGET:-$TMP/target}/debug/demo"
