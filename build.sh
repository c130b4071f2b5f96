#!/bin/bash
# Builds the simulator from /repo's current working tree: build.sh [plain] [race]
set -e
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export PATH=/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
V=$(cd "$(dirname "$0")" && pwd)
B=$V/build
mkdir -p "$B"
cd "$V/sim"
go build -o "$B/simgen" ./cmd/simgen
"$B/simgen" -repo /repo -out "$B/gen" -overlay "$B/overlay.json" -race-overlay "$B/overlay-race.json" \
  -stdpool "$V/sim/stdpool/pool.go.txt" . ./math ./misc ./sql/postgres
for k in "$@"; do
  case $k in
  plain) go build -overlay "$B/overlay.json" -o "$B/simworker" ./cmd/simworker ;;
  race)  go build -race -overlay "$B/overlay-race.json" -o "$B/simworker-race" ./cmd/simworker ;;
  esac
done
