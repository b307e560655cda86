#!/bin/bash
# C20: the code generator reproduces the codec. Runs the generator on a copy of
# the tree, builds the monitors with what it wrote, and runs those of the codec
# and of the dispatch against that and against the code as committed.
set -u
here="$(cd "$(dirname "$0")/.." && pwd)"
. "$here/tools/env.sh"
start=$(date +%s.%N)
tier="${VERIF_TIER:-quick}"; [ "$tier" = thorough ] || tier=quick
seed="${VERIF_SEED:-1}"
s="$(mktemp -d /tmp/ninepmon-C20-XXXXXX)" || exit 2
trap 'rm -rf "$s"' EXIT
mkdir -p "$here/out" "$here/evidence"
finish() { # finish KIND TEXT-FILE
	python3 "$here/tools/c20.py" "$here" "$s" "$tier" "$seed" "$start" "$1" "${2:-}"
	exit $?
}
oldpath="$GOPATH"
committed="$s/committed"
build() { ( cd "$gosrc" && go build -o "$1" verif/ninepmon ); }
if ! build "$committed" 2>"$s/build"; then cat "$s/build" >&2; echo "c20: build failed" >&2; exit 2; fi
# A copy in a GOPATH of its own.
export GOPATH="$s/gopath"
copy="$GOPATH/src/github.com/Harvey-OS/ninep"
mkdir -p "$copy" "$GOPATH/src/verif"
( cd /repo && tar cf - --exclude=.git . ) | ( cd "$copy" && tar xf - ) || exit 2
cp -r "$here/src/ninepmon" "$GOPATH/src/verif/ninepmon"
src="$(sed -n 's,^//go:generate go run ,,p' "$copy"/protocol/*.go | head -1)"
[ -n "$src" ] || src=gen.go
# Twice: what was generated has to do for the next time too.
for n in 1 2; do
	if ! ( cd "$copy/protocol" && go build -o "$s/gen" $src ) >"$s/log" 2>&1; then finish "the generator does not build (run $n)" "$s/log"; fi
	mkdir -p "$s/run$n" && cp "$copy"/protocol/*.go "$s/run$n/" && chown -R 61000:61000 "$s/run$n" && chmod 755 "$s" "$s/gen"
	if ! ( cd "$s/run$n" && timeout 120 setpriv --reuid 61000 --regid 61000 --clear-groups "$s/gen" ) >"$s/log" 2>&1; then finish "the generator fails (run $n)" "$s/log"; fi
	cp "$s/run$n"/*.go "$copy/protocol/" || exit 2
	if ! ( cd "$copy" && go build ./... ) >"$s/log" 2>&1; then finish "what was generated does not build (run $n)" "$s/log"; fi
done
cmp -s "$copy/protocol/genout.go" /repo/protocol/genout.go && echo same >"$s/same"
gosrc="$copy"
if ! build "$s/generated" >"$s/log" 2>&1; then finish "the monitors do not build with what was generated" "$s/log"; fi
limit=400; [ "$tier" = thorough ] && limit=7000
for part in C01 C02 C03 C05 C06; do
	for v in committed generated; do
		( "$s/$v" -id $part -part -out "$s" -limit $limit >"$s/$part.$v.json" 2>"$s/$part.$v.err"; echo $? >"$s/$part.$v.rc" ) &
	done
	wait
done
finish parts
