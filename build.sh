#!/bin/bash
# build, from /repo's current source, the MIR dump and the replay runner.  usage: build.sh [WORKDIR]
V=$(dirname "$(realpath "$0")")
W=${1:-$V/build}
mkdir -p "$W"
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
( cd "$V/entry" && RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR=$W/entry cargo clean -q --offline -p pgdatetime 2>/dev/null
  bash "$V/extract.sh" "$W/dump.json" "$W" >"$W/extract.log" 2>&1; echo $? >"$W/extract.rc" ) &
( cd "$V/runner" && CARGO_TARGET_DIR=$W/runner cargo clean -q --offline -p pgdatetime 2>/dev/null
  rm -f "$W/runner/debug/vprunner"
  RUSTFLAGS="--cap-lints allow" CARGO_INCREMENTAL=0 CARGO_TARGET_DIR=$W/runner cargo build --offline -q >"$W/runner.log" 2>&1; echo $? >"$W/runner.rc" ) &
wait
a=$(cat "$W/extract.rc"); b=$(cat "$W/runner.rc")
if [ "$a" != 0 ] || [ "$b" != 0 ]; then
  tail -n 30 "$W/extract.log" "$W/runner.log" >&2
  exit 2
fi
