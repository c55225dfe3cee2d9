#!/bin/bash
# Builds the simulator runtime, the harness and the shipped program from /repo's current
# working tree into /verif/build (never into /repo). Offline; prints only on failure.
set -u
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
V=$(cd "$(dirname "$0")/.." && pwd)
B=$V/build
mkdir -p "$B"
exec 9>"$B/.lock"
flock 9
sha=$(cat "$V/sim/rt/simrt.c" "$V/sim/rt/simrt.h" | sha256sum | cut -c1-16)
O=$B/simrt-$sha.o
if [ ! -f "$O" ]; then
  gcc -O2 -Wall -Wextra -U_FORTIFY_SOURCE -fno-builtin -fPIC -c "$V/sim/rt/simrt.c" -o "$O.tmp" || exit 2
  mv "$O.tmp" "$O"
fi
export RUSTC_BOOTSTRAP=1 RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR=$B/target
export CARGO_ENCODED_RUSTFLAGS=$(printf '%s\x1f%s\x1f%s\x1f%s\x1f%s\x1f%s' -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer "-Clink-arg=$O" -Aunused -Awarnings)
log=$B/build.log
T=x86_64-unknown-linux-gnu
if ! cargo build --offline --locked --target $T --manifest-path "$V/sim/harness/Cargo.toml" >"$log" 2>&1; then
  cat "$log" >&2
  echo "build of the harness failed" >&2
  exit 2
fi
export CARGO_PROFILE_DEV_OPT_LEVEL=2 CARGO_PROFILE_DEV_DEBUG=line-tables-only
if ! cargo build --offline --locked --target $T --manifest-path /repo/Cargo.toml -p main --bin main >"$log" 2>&1; then
  cat "$log" >&2
  echo "build of the program failed" >&2
  exit 2
fi
