#!/bin/bash
# Runs the test beside this script inside the package named in its first line.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
pkg=$(sed -n '1s#^// pkg: ##p' "$here/demo.go.txt")
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
cp "$here/demo.go.txt" "$tmp/zz_demo_test.go"
printf '{"Replace":{"%s/%s/zz_demo_test.go":"%s/zz_demo_test.go"}}' "$PWD" "$pkg" "$tmp" > "$tmp/o.json"
timeout 200 go test -vet=off -count=1 -overlay "$tmp/o.json" -run '^TestZZDemo$' "./$pkg"
