#!/bin/bash
# usage: check.sh <property> [quick|thorough]      exit 0 held, 1 violation, 2 error
set -u
V="$(cd "$(dirname "$0")" && pwd)"
P="$1"; TIER="${2:-${VERIF_TIER:-quick}}"
export VERIF_DIR="$V"
# C16 is about the other FIDO backend, which excludes the default one
B=mozilla; [ "$P" = C16 ] && B=ctap2
"$V/build.sh" $B || exit 2
exec "$V/target/$B/release/sim" check "$P" "$TIER"
