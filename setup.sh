#!/bin/bash
# Warms the build cache; the checks work without it.
cd "$(dirname "$0")/dst" || exit 1
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off
d=$(mktemp -d) || exit 1
trap 'rm -rf "$d"' EXIT
go vet ./... && go test ./model && go build -o "$d/dst" ./cmd/dst || exit 1
go test -c -o "$d/plain.test" ./world && go test -c -race -o "$d/race.test" ./world
