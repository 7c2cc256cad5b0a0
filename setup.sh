#!/bin/bash
# Warms the build cache; every check builds what it needs by itself.
cd "$(dirname "$0")/sim" || exit 1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOWORK=off GOFLAGS=-mod=mod GOPROXY=off
out="$(mktemp -d /tmp/nimsim-setup-XXXXXX)"
trap 'rm -rf "$out"' EXIT
go build -o "$out/instr" ./instr && go version
