# Sourced: a GOPATH of our own in which the project is /repo's working tree.
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin
unset GOROOT GOOS GOARCH
verif="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
export GOENV=off GOPATH="$verif/.build/gopath" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
export GO111MODULE=off GOFLAGS= GOWORK=off GOPROXY=off GOTOOLCHAIN=local GOTELEMETRY=off
mkdir -p "$GOPATH/src/github.com/Harvey-OS" "$verif/.build/bin"
ln -sfn /repo "$GOPATH/src/github.com/Harvey-OS/ninep"
mkdir -p "$GOPATH/src/verif"
ln -sfn "$verif/src/ninepmon" "$GOPATH/src/verif/ninepmon"
gosrc="$GOPATH/src/github.com/Harvey-OS/ninep"
