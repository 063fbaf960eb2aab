#!/bin/bash
# Builds the model checker (and, for C20, C24, C28, C30 or without an argument, the program they drive) against /repo's working tree.
# Cargo tells changed sources by their time stamps; a stamp of the contents makes sure a change is never missed.
set -e
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/harness"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
[ -d /root/.rustup ] && export HOME=/root
unset CARGO_TARGET_DIR RUSTFLAGS RUSTDOCFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
mkdir -p target
exec 9>target/build.lock
flock 9
now=$( { find /repo/src /repo/utils/src src stat/Cargo.toml random/Cargo.toml random/rand sched/Cargo.toml sched/src sched/wrap.sh plain/Cargo.toml plain/src Cargo.toml /repo/Cargo.toml /repo/readme.md -type f -print0 2>/dev/null \
  | sort -z | xargs -0 sha256sum; cargo --version; } | sha256sum | cut -d' ' -f1)
build() { # name, manifest, package, further arguments
  local stamp=target/$1.stamp
  if [ "$(cat "$stamp" 2>/dev/null)" != "$now" ]; then
    rm -f "$stamp"
    cargo clean --offline --quiet --manifest-path "$2" --target-dir "$4" $5 -p yamd -p "$3" 2>/dev/null || true
  fi
  cargo build --offline --quiet --manifest-path "$2" --target-dir "$4" $5
  echo "$now" >"$stamp"
}
build mc Cargo.toml yamd-mc target --release
if [ -z "$1" ] || [ "$1" = C24 ]; then
  build stat stat/Cargo.toml yamd-mc-stat target/stat ""
fi
if [ -z "$1" ] || [ "$1" = C28 ]; then
  build random random/Cargo.toml yamd-mc-random target/random ""
fi
if [ -z "$1" ] || [ "$1" = C30 ]; then
  build plain plain/Cargo.toml yamd-mc-plain target/plain --release
fi
if [ -z "$1" ] || [ "$1" = C20 ]; then
  export RUSTC_WRAPPER=$here/harness/sched/wrap.sh
  build sched sched/Cargo.toml yamd-mc-sched target/sched ""
fi
