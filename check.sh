#!/bin/bash
# usage: check.sh PROPERTY   (VERIF_TIER=quick|thorough, VERIF_SEED)
# Builds the checkers against /repo's working tree and runs one property.
set -u
cd "$(dirname "$0")"
VERIF="$PWD"
export VERIF_DIR="$VERIF" VERIF_TIER="${2:-${VERIF_TIER:-quick}}" VERIF_SEED="${VERIF_SEED:-1}"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off
export GOCACHE="$VERIF/.build/gocache"
unset GOEXPERIMENT
B="$VERIF/.build"
mkdir -p "$B"
id="$1"
bin="$B/mc.$$"
export TMPDIR="$(mktemp -d /tmp/verif-XXXXXX)"
trap 'rm -rf "$B/mc.$$" "$B/run.$$" "$TMPDIR"' EXIT
if ! (cd "$VERIF/go" && go build -o "$bin" ./mc) >"$B/build.$$.log" 2>&1; then
  cat "$B/build.$$.log"; rm -f "$B/build.$$.log"
  echo "cannot build the checker against /repo"
  exit 2
fi
rm -f "$B/build.$$.log"
case "$id" in
  C*) mkdir -p "$B/run.$$"; exec_ts=1 ;;
  *) exec_ts=0 ;;
esac
if [ $exec_ts = 1 ]; then
  "$VERIF/ts/run.sh" "$id" "$bin" "$B/run.$$" 2>"$TMPDIR/stderr"
  rc=$?
else
  "$bin" check "$id" 2>"$TMPDIR/stderr"
  rc=$?
fi
head -c 20000 "$TMPDIR/stderr" >&2
# A crash that ends the whole process (stack overflow, memory exhausted,
# concurrent map access) is the doing of the code under test.
if [ $rc != 0 ] && [ $rc != 1 ] && grep -qaE '^(panic|fatal error|runtime): |^FATAL ERROR: |^RangeError: ' "$TMPDIR/stderr"; then
  mkdir -p "$VERIF/replays"
  head -c 20000 "$TMPDIR/stderr" >"$VERIF/replays/$id-crash.txt"
  echo "VIOLATION property=$id replay=$VERIF/replays/$id-crash.txt"
  echo "  process-crash: $(grep -aE -m1 '^(panic|fatal error|runtime): |^FATAL ERROR: |^RangeError: ' "$TMPDIR/stderr")"
  rc=1
fi
exit $rc
