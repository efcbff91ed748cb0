#!/bin/bash
# Extract the MIR of /repo's current source.  usage: extract.sh OUT.json [WORKDIR]
set -e
V=$(dirname "$(realpath "$0")")
OUT=$1; W=${2:-$V/build}
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTUP_TOOLCHAIN=nightly
NS=$(rustc --print sysroot)
if [ ! -x "$W/mirdump/debug/mirdump" ] || [ "$V/mirdump/src/main.rs" -nt "$W/mirdump/debug/mirdump" ]; then
  (cd "$V/mirdump" && CARGO_TARGET_DIR=$W/mirdump cargo build --offline -q)
fi
export LD_LIBRARY_PATH=$NS/lib
export RUSTC_WRAPPER=$W/mirdump/debug/mirdump
export MIRDUMP_CRATE=vpentry MIRDUMP_OUT=$OUT
export MIRDUMP_SKIP="core::panicking,std::panicking,core::fmt::,std::fmt::,std::io,std::rt,std::sys,std::thread,alloc::raw_vec,alloc::alloc,core::str::,core::slice::sort,core::slice::memchr,alloc::slice,alloc::str,alloc::string,core::unicode,alloc::vec,alloc::fmt,std::alloc,core::char,std::string::,std::vec::,core::result::unwrap_failed,core::option::unwrap_failed,core::option::expect_failed"
export RUSTFLAGS="--cap-lints allow -Zalways-encode-mir -Zmir-opt-level=0 -Zinline-mir=no -Cdebug-assertions=on -Coverflow-checks=on -Zmir-enable-passes=-CheckAlignment,-CheckNull"
export CARGO_INCREMENTAL=0
touch "$V/entry/src/lib.rs" 2>/dev/null || true
rm -f "$OUT"
(cd "$V/entry" && CARGO_TARGET_DIR=$W/entry cargo build --offline -q)
test -s "$OUT"
