#!/bin/bash
# build.sh: builds the simulated system from /repo's current working tree into
# /verif/.build (nothing in /repo is touched).
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=${XX_REPO:-/repo}
out=${XX_OUT:-$here/.build}
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh >/dev/null 2>&1 || true; fi
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
mkdir -p "$out"
cd "$here/sim"
bash mkmod.sh "$out" "$repo"
go run ./cmd/instr -repo "$repo" -out "$out" -modfile "$out/go.mod"
go build -overlay "$out/overlay.json" -modfile "$out/go.mod" -o "$out/dst" ./cmd/dst
