#!/bin/bash
# Run in the repository: exit 0 if the property holds in this scenario.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=mod
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" "$t/data" && cp "$here"/*.go "$t/src/" || exit 3
[ -f "$here/ops.gz" ] && cp "$here/ops.gz" "$t/data/"
cp "$here/go.sum.txt" "$t/src/go.sum"
cat > "$t/src/go.mod" <<X
module demo

go 1.20

require (
	github.com/gogo/protobuf v1.3.1
	github.com/roy2220/fsm v0.6.1
	github.com/roy2220/plainkv v0.0.0
)

replace github.com/roy2220/plainkv => $repo
X
cd "$t/src" && go build -o ../demo . || exit 3
timeout 200 ../demo "$t/data"
