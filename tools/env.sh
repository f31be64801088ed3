# Sourced by the scripts in this directory.
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod CGO_ENABLED=1 GOWORK=off
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
REPO=${VERIF_REPO:-/repo}
B=$VERIF/.build
export GOCACHE=$B/gocache
mkdir -p "$B"
