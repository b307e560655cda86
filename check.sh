#!/bin/bash
# check.sh ID: build the monitors against /repo's working tree and run the check
# of property ID. VERIF_TIER (quick, thorough) and VERIF_SEED are respected.
set -u
id="${1:?usage: check.sh ID}"
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/tools/env.sh"
b="$here/.build"
build() { # build OUT FLAGS PKG
	local out="$1"; shift
	( cd "$gosrc" && go build -o "$out" "$@" ) || { echo "check.sh: build failed" >&2; exit 2; }
}
case "$id" in
C20) exec bash "$here/tools/c20.sh" ;;
esac
case "$id" in
C01|C02|C04|C09|C10|C11|C12|C13|C14|C15|C16|C19|C21|C22|C23) build "$b/bin/ninepmon" verif/ninepmon ;; # one request at a time: nothing for the race detector
*) build "$b/bin/ninepmon" -race verif/ninepmon ;;
esac
case "$id" in
C07|C08) build "$b/bin/ninepmon-norace" verif/ninepmon ;;
C04|C18|C21) build "$b/bin/ufs" github.com/Harvey-OS/ninep/cmd/ufs ;;
esac
case "$id" in
C03|C05|C06|C07|C08|C10|C11|C12|C13|C14|C15|C16|C18|C19|C22) # a test binary: that's how to get virtual time
	( cd "$gosrc" && go test -vet=off -c -o "$b/bin/ninepmon-vt" verif/ninepmon ) || { echo "check.sh: build failed" >&2; exit 2; } ;;
esac
limit=840
[ "${VERIF_TIER:-quick}" = thorough ] && limit=14000
exec "$b/bin/ninepmon" -id "$id" -out "$here" -limit "$limit"
