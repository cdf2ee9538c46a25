#!/bin/bash
# Runs demo_test.go against the working tree in the current directory.
set -e
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
cp "$here"/*_test.go "$tmp/"
cat > "$tmp/go.mod" <<M
module demo

go 1.27

require (
	github.com/weedbox/pokercompetition v0.0.0
	github.com/weedbox/pokertable v0.1.83
	github.com/weedbox/pokerface v0.1.10
	github.com/google/uuid v1.3.1 // indirect
	github.com/thoas/go-funk v0.9.3 // indirect
	github.com/weedbox/syncsaga v0.0.0-20230821071725-a634f0872340 // indirect
	github.com/weedbox/timebank v0.0.0-20230713013837-bd7a6f808e3e // indirect
)

replace github.com/weedbox/pokercompetition => $PWD
M
cp "$PWD/go.sum" "$tmp/go.sum"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off GOTOOLCHAIN=local
cd "$tmp"
go test -vet=off $DEMO_FLAGS -c -o demo.test .
timeout 250 ./demo.test -test.run '^TestDemo$' -test.timeout 200s
