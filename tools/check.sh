#!/bin/bash
# check.sh PROPERTY [quick|thorough] [engine flags]: decides one property on /repo's current tree.
# Exit 0: held on everything explored. Exit 1: VIOLATION line printed. Other: the check itself failed.
verif="$(cd "$(dirname "$0")/.." && pwd)"
prop="$1"; tier="${2:-${VERIF_TIER:-quick}}"; shift; shift
export HOME="${HOME:-/root}" PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off TZ=UTC
budget=120
[ "$tier" = thorough ] && budget=700
bin="$verif/.build/engine-$prop-$$"
mkdir -p "$verif/.build" || exit 2
trap 'rm -f "$bin"' EXIT
(cd "$verif/engine" && go build -o "$bin" .) || exit 2
"$bin" check -verif "$verif" -repo /repo -prop "$prop" -tier "$tier" -seed "${VERIF_SEED:-1}" -budget "$budget" "$@"
