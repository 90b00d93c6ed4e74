#!/bin/bash
# replay.sh FILE: runs a reported counterexample again, natively, against /repo. Exit 1 if it still fails.
verif="$(cd "$(dirname "$0")/.." && pwd)"
export HOME="${HOME:-/root}" PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off TZ=UTC
bin="$verif/.build/engine-replay-$$"
mkdir -p "$verif/.build" || exit 2
trap 'rm -f "$bin"' EXIT
(cd "$verif/engine" && go build -o "$bin" .) || exit 2
"$bin" replay -verif "$verif" "$1"
