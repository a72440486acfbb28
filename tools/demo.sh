#!/bin/bash
# runs main.go (beside this file) as a program of the module in the current directory
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
export HOME="${HOME:-/root}" PATH=/opt/veriftools/go1.23.12/bin:/usr/local/bin:/usr/bin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOENV=off
export GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build TMPDIR="$tmp"
printf '{"Replace":{"%s/ecore/zzdemo/main.go":"%s/main.go"}}' "$PWD" "$here" > "$tmp/o.json"
timeout 200 go run -overlay "$tmp/o.json" ./ecore/zzdemo
