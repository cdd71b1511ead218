#!/bin/bash
# exit 0: the property holds here; otherwise: broken (or no answer)
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export HOME="${HOME:-/root}" PATH="/opt/veriftools/go1.27.3/bin:${PATH:-/usr/bin:/bin}"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS= GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOCACHE="${GOCACHE:-/root/.cache/go-build}"
tmp=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 3
trap 'rm -rf -- "$tmp"' EXIT
cp "$here"/*.go "$here/go.sum" "$tmp" || exit 3
cat > "$tmp/go.mod" <<M
module demo

go 1.16

require (
	github.com/dedis/crypto v0.0.0-20150613143308-38ce20af3931
	go.dedis.ch/protobuf v1.0.11
	zRep v0.0.0
)

replace zRep => $repo
M
cd "$tmp" || exit 3
go build -mod=mod -tags verif -o "$tmp/demo" . || exit 3
TMPDIR="$tmp" timeout 250 "$tmp/demo"
