#!/bin/bash
# Warm the build cache: everything the checks build.
set -e
here="$(cd "$(dirname "$0")/.." && pwd)"
. "$here/tools/env.sh"
cd "$gosrc"
go build -o "$here/.build/bin/ufs" github.com/Harvey-OS/ninep/cmd/ufs
go build -o "$here/.build/bin/ninepmon" verif/ninepmon
go build -race -o "$here/.build/bin/ninepmon" verif/ninepmon
go test -vet=off -c -o "$here/.build/bin/ninepmon-vt" verif/ninepmon
