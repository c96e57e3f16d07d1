#!/bin/bash
# Runs demo_test.go (beside this script) inside the repository in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
repl=
for f in "$here"/*_test.go; do
  repl="$repl${repl:+,}\"$PWD/@PKG@/zz_$(basename "$f")\":\"$f\""
done
echo "{\"Replace\":{$repl}}" > "$tmp/overlay.json"
go test -vet=off -count=1 -timeout 250s -overlay "$tmp/overlay.json" -run '^TestDemo' ./@PKG@
