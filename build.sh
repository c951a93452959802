#!/bin/bash
# Builds the simulation harness together with sshcerts from /repo's current working tree.
# usage: build.sh [mozilla|ctap2]
set -u
export CARGO_NET_OFFLINE=true
V="$(cd "$(dirname "$0")" && pwd)"
which="${1:-mozilla}"
mkdir -p "$V/target"
exec 9>"$V/target/.lock"; flock 9
case "$which" in
  mozilla) T="$V/target/mozilla"; F="" ;;
  ctap2)   T="$V/target/ctap2"; F="--no-default-features --features ctap2" ;;
esac
export CARGO_TARGET_DIR="$T"
# cargo decides by file times; a tree laid down with old times must be rebuilt as well, so decide by content
sum="$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name 'Cargo.*' -o -name '*.pem' -o -name '*.der' \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)"
cd "$V/sim" || exit 2
if [ "$(cat "$T/.stamp" 2>/dev/null)" != "$sum" ]; then
  rm -f "$T/.stamp"
  cargo clean --release --offline -p sshcerts >/dev/null 2>&1
fi
if ! cargo build --release --offline $F >"$T.log" 2>&1; then
  cat "$T.log" >&2
  echo "build failed" >&2
  exit 2
fi
echo "$sum" > "$T/.stamp"
