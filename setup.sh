#!/bin/bash
# Warms the Go build cache; every check builds what it needs itself.
cd "$(dirname "$0")" || exit 1
export HOME=${HOME:-/root} GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
(cd gover && go build -o "$d/gover" .) && (cd refute && go build -o "$d/refute" .)
