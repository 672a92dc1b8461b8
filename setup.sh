#!/bin/bash
# Builds the driver once, to show that the framework builds offline (every check builds its own).
set -e
cd "$(dirname "$0")/harness"
export PATH=/opt/veriftools/go1.23.12/bin:$PATH HOME=/root GOWORK=off GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly
unset GOROOT
mkdir -p ../.build
go build -o ../.build/vdrv .
tlc -h >/dev/null 2>&1 || true
