#!/bin/bash
# build.sh [bin]: compile a monitor (without argument: both) and, natively, the program from ../repo's
# working tree. Offline.
( . /opt/vp/env.sh
  export CARGO_NET_OFFLINE=true
  unset CARGO_TARGET_DIR RUSTFLAGS
  cd "$(dirname "${BASH_SOURCE[0]}")/harness" || exit 1
  # Never trust time stamps: rebuild the code under test whenever its contents differ from what was built.
  H=$(cd ../../repo && find programs merkle-tree Cargo.toml Cargo.lock -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum)
  if [ "$(cat target/src.sha256 2>/dev/null)" != "$H" ]; then
    rm -f target/src.sha256
    cargo clean --release --offline -p presale -p merkle-tree > /dev/null 2>&1
  fi
  for b in ${1:-presale-monitor tree-monitor}; do
    cargo build --release --offline --locked --bin "$b" > build.log 2>&1 && continue
    [ "$b" = tree-monitor ] && cargo build --release --offline --locked --bin "$b" --features noverify >> build.log 2>&1 && continue
    tail -40 build.log >&2; exit 1
  done
  echo "$H" > target/src.sha256 )
