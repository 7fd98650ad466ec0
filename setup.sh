#!/bin/bash
# Builds the checkers once, so that the first check finds a warm build cache.
cd "$(dirname "$0")" || exit 1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOCACHE="$PWD/.build/gocache"
mkdir -p .build evidence replays
(cd go && go build -o ../.build/mc.setup ./mc) && rm -f .build/mc.setup
# the converter's dependencies (a failure here shows in check R01, not in the others)
mkdir -p .build/rust/setup
cp -r "${VERIF_REPO:-/repo}/scripts/jsonl2json/." .build/rust/setup/ &&
  (cd .build/rust/setup && CARGO_INCREMENTAL=0 cargo build --offline --target-dir "$OLDPWD/.build/rust/target" >/dev/null 2>&1)
true
