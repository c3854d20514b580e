#!/bin/bash
# Rebuilds the simulator around /repo's current working tree: BIN is $1 (default build/sim).
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export HOME=/root
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=0 GOWORK=off GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS="-mod=mod"
bin=${1:-$here/build/sim}
work=${2:-$here/build/w}
mkdir -p "$here/build" "$work" "$(dirname "$bin")"
modc=$(go env GOMODCACHE)
gods=$modc/github.com/emirpasic/gods@v1.12.0
props=$modc/github.com/magiconair/properties@v1.8.4
(cd "$here/simgen" && go build -o "$here/build/simgen.$$" . && mv "$here/build/simgen.$$" "$here/build/simgen")
"$here/build/simgen" -repo "$repo" -sim "$here/sim" -out "$work" -gods "$gods" -props "$props"
cd "$here/sim" && go build -modfile="$work/gen/sim.mod" -o "$bin.$$" ./cmd/sim && mv "$bin.$$" "$bin"
