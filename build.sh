#!/bin/bash
# Build the simulator from /repo's current working tree: build.sh OUTDIR
# The harness (sim/) is compiled in place of cmd/syncv3's main package through a
# -overlay file; nothing is written in /repo.
set -e
OUT=$1
HERE=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh 2>/dev/null || true
export GOROOT=/opt/veriftools/go1.25.14
export PATH=$GOROOT/bin:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=readonly GOPROXY=off CGO_ENABLED=0
export GOCACHE=${VERIF_GOCACHE:-$OUT/gocache}
mkdir -p "$OUT"
EXTRA=()
for f in /repo/cmd/syncv3/*.go; do EXTRA+=("$f="); done
for f in "$HERE"/sim/*.go "$HERE"/sim/*.s; do EXTRA+=("/repo/cmd/syncv3/zz_sim_$(basename $f)=$f"); done
python3 "$HERE/rt/patch.py" $GOROOT "$OUT/overlay" "${EXTRA[@]}"
cd /repo
go build -overlay "$OUT/overlay/overlay.json" -ldflags=-checklinkname=0 -o "$OUT/verifsim" ./cmd/syncv3
