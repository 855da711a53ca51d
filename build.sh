#!/bin/bash
# Build what the checks need: the contracts' wasm from /repo's working tree, and the monitor binary.
# Content-hash keyed (mtimes are not trusted); safe to run repeatedly and concurrently.
set -e
V=/verif; R=/repo; B=$V/.build
mkdir -p $B/wasm-out
exec 9>$B/lock; flock 9
. /opt/vp/env.sh
export CARGO_INCREMENTAL=0
h=$(cd $R && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name 'Cargo.lock' -o -name rust-toolchain -o -name '*.json' \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
h="$h-$(rustc --version | tr ' ' _)"
if [ "$(cat $B/wasm.stamp 2>/dev/null)" != "$h" ] || [ ! -f $B/wasm-out/ref_exchange.wasm ] || [ ! -f $B/wasm-out/ref_farming.wasm ]; then
  rm -f /verif/.build/wasm.stamp
  # drop the workspace crates' fingerprints so that cargo recompiles them whatever the mtimes say
  for d in $B/wasm/wasm32-unknown-unknown/release/.fingerprint/ref-exchange-* $B/wasm/wasm32-unknown-unknown/release/.fingerprint/ref_farming-* $B/wasm/wasm32-unknown-unknown/release/.fingerprint/ref-farming-*; do [ -d "$d" ] && rm -rf "$d"; done
  (cd $R && CARGO_TARGET_DIR=$B/wasm RUSTFLAGS='-C link-arg=-s' cargo build --offline --locked -p ref-exchange --target wasm32-unknown-unknown --release \
         && CARGO_TARGET_DIR=$B/wasm RUSTFLAGS='-C link-arg=-s' cargo build --offline --locked -p ref_farming --target wasm32-unknown-unknown --release) >$B/wasm.log 2>&1 || { tail -30 $B/wasm.log >&2; echo "build of /repo failed" >&2; exit 3; }
  cp $B/wasm/wasm32-unknown-unknown/release/ref_exchange.wasm $B/wasm/wasm32-unknown-unknown/release/ref_farming.wasm $B/wasm-out/
  echo "$h" > $B/wasm.stamp
fi
g=$(cd $V/harness && find . -path ./target -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
if [ "$(cat $B/harness.stamp 2>/dev/null)" != "$g" ] || [ ! -x $B/refmon ]; then
  (cd $V/harness && find src -name '*.rs' -exec touch {} + ; CARGO_TARGET_DIR=$B/harness RUSTFLAGS= cargo build --release --offline --locked) >$B/harness.log 2>&1 || { tail -30 $B/harness.log >&2; echo "build of the monitor failed" >&2; exit 3; }
  cp $B/harness/release/refmon $B/refmon
  echo "$g" > $B/harness.stamp
fi
