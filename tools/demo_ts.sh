#!/bin/bash
# Bundles demo.ts beside this script with the client under ./src and runs it.
# With a data.jsonl beside it, indexes that first (search field t); INDEX and DATA name the files.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
if [ -f "$here/gen.sh" ]; then
  bash "$here/gen.sh" > "$tmp/data" || exit 0
  go run ./cmd -jsonl -s t -s u -i "$tmp/index" "$tmp/data" 2>/dev/null || exit 1
  export DATA="$tmp/data" INDEX="$tmp/index"
fi
/opt/veriftools/node/node_modules/.bin/esbuild "$here/demo.ts" --bundle --platform=node --format=cjs --target=node20 --log-level=error "--alias:repo=$PWD/src" "--outfile=$tmp/main.cjs" || exit 1
timeout 120 node "$tmp/main.cjs"
