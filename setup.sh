#!/bin/bash
# Builds the harness once with and once without the race detector, so that the
# checks find a warm build cache.
set -eu
cd "$(dirname "$0")"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cd harness
go build -o "$tmp/a" .
go build -race -o "$tmp/b" .
