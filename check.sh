#!/bin/bash
# usage: check.sh ID   (tier from VERIF_TIER)   |  check.sh --build
# Rebuilds the exploration harness against /repo's current working tree, then explores one property.
set -u
cd "$(dirname "$0")" || exit 2
export HOME="${HOME:-/root}" CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$PWD/target"
export RUSTFLAGS="--cfg tycho_mc" # scheduling points of the library
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS
mkdir -p target evidence replays
hash=$(cd /repo && { find src proc abi-proc -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.boc' -o -name '*.bin' \) 2>/dev/null; ls Cargo.toml; } | LC_ALL=C sort | xargs sha256sum 2>/dev/null | sha256sum | cut -d' ' -f1)
if [ "$(cat target/.repo-hash 2>/dev/null)" != "$hash" ]; then
  # cargo's mtime based freshness is not trusted across content changes
  (cd mc && cargo clean --release --offline -p tycho-types -p tycho-types-proc -p tycho-types-abi-proc >/dev/null 2>&1)
fi
if ! (cd mc && cargo build --release --offline 2>target-build.log >&2); then
  tail -60 mc/target-build.log >&2
  echo "check.sh: harness does not build against /repo" >&2
  exit 2
fi
echo "$hash" > target/.repo-hash
[ "$1" = "--build" ] && exit 0
exec target/release/mc "$@"
