#!/bin/bash
# usage: run.sh ID MCBIN RUNDIR   (called by check.sh)
# Bundles the client of /repo's working tree with the checker and runs it.
set -u
id="$1" mc="$2" dir="$3"
here="$(cd "$(dirname "$0")" && pwd)"
REPO="${VERIF_REPO:-/repo}"
N=/opt/veriftools/node/node_modules
low=$(echo "$id" | tr 'A-Z' 'a-z')
if ! "$N/.bin/esbuild" "$here/checks/$low.ts" --bundle --platform=node --format=cjs --target=node20 --log-level=error \
  "--alias:repo=$REPO/src" "--outfile=$dir/main.cjs" >"$dir/build.log" 2>&1; then
  cat "$dir/build.log"
  echo "cannot build the checker against /repo"
  exit 2
fi
case "$id" in
  C01|C02|C03|C05|C06|C08|C09|C11|C12)
    if ! "$mc" gen "$id" "$dir/gen.bin" "$VERIF_TIER" >"$dir/gen.log" 2>&1; then
      head -c 10000 "$dir/gen.log" >&2
      echo "cannot generate the inputs of $id"
      exit 2
    fi ;;
esac
export MC_DIR="$dir" MC_BIN="$mc"
exec node --max-old-space-size=3000 "$dir/main.cjs" "$id"
