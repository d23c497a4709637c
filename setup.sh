#!/bin/bash
# Offline preparation: warm the build cache and make sure every specification parses.
set -e
cd "$(dirname "$0")"
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cp harness/go.mod harness/go.sum "$d"/
(cd harness && go build -modfile="$d/go.mod" -o "$d/harness" . && go build -modfile="$d/go.mod" -o "$d/modelconv" github.com/binzume/modelconv/cmd/modelconv)
cd spec
for f in *.tla; do
  java -Djava.io.tmpdir="$d" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" > "$d/sany.out" 2>&1 || { cat "$d/sany.out"; exit 1; }
done
echo setup ok
