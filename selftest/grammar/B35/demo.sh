#!/bin/bash
# Generates the parser from the grammar in a copy of the current directory and runs demo_test.go against it.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off
cp -a "$PWD" "$tmp/repo" && cd "$tmp/repo" || exit 2
ragel -Z -G1 -e -o "$tmp/machine.go" machine.go.rl || exit 2
(cd tools/removecomments && go build -o "$tmp/rc" .) || exit 2
(cd tools/snake2camel && go build -o "$tmp/sc" .) || exit 2
"$tmp/rc" "$tmp/machine.go" && "$tmp/sc" "$tmp/machine.go" && gofmt -w "$tmp/machine.go" || exit 2
cp "$tmp/machine.go" machine.go
cp "$here/demo_test.go" zz_demo_test.go
timeout 200 go test -vet=off -count=1 -run '^TestDemo' .
