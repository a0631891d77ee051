#!/bin/bash
# usage: check.sh PROPERTY   (VERIF_SEED, VERIF_TIER=quick|thorough)
# Builds the driver into a scratch directory, then lets it build the library
# from /repo's working tree and run the simulation.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD" GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off
bin=$(mktemp -d) || exit 2
trap 'rm -rf "$bin"' EXIT
(cd dst && go build -o "$bin/dst" ./cmd/dst) || exit 2
"$bin/dst" "${2:-check}" "$1"
