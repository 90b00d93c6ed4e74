#!/bin/bash
# Builds the engine and the replay program once, to warm the build cache. Nothing it leaves is needed later.
verif="$(cd "$(dirname "$0")/.." && pwd)"
export HOME="${HOME:-/root}" PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off TZ=UTC
set -e
mkdir -p "$verif/.build"
(cd "$verif/engine" && go build -o "$verif/.build/engine-setup" .)
(cd "$verif/harness" && go vet ./sym ./props && go build -o "$verif/.build/replay-setup" ./replay)
rm -f "$verif/.build/engine-setup" "$verif/.build/replay-setup"
z3 --version
