#!/bin/bash
# Warms the Go build cache; every check rebuilds against /repo by itself.
set -e
cd "$(dirname "$0")"
. /opt/vp/env.sh
t=$(mktemp -d /tmp/vh-setup.XXXXXX)
trap 'rm -rf "$t"' EXIT
cp -r harness "$t/src"
cd "$t/src"
go test -c -o "$t/vh.test" .
CGO_ENABLED=1 go test -race -c -o "$t/vh.race.test" .
echo ok
