#!/bin/bash
# Runs demo_test.go (beside this file) as a test of the package that its first line names (// package-dir: DIR).
export HOME="${HOME:-/root}" PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOWORK=off GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly
unset GOROOT
here=$(cd "$(dirname "$0")" && pwd)
dir=$(sed -n 's|^// package-dir: *||p' "$here/demo_test.go")
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
cp "$here/demo_test.go" "$tmp/demo_test.go"
printf '{"Replace":{"%s/%s/zz_planted_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$dir" "$tmp" > "$tmp/overlay.json"
go test -vet=off -count=1 -timeout 200s -overlay "$tmp/overlay.json" -run '^TestPlantedDemo$' "./$dir"
