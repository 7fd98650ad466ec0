#!/bin/bash
# usage: tools/seed.sh NAME [check|demo|all]
# Validates /verif/seeded/NAME in a scratch copy of /repo: applies, builds, stable
# tests pass, demo passes without and fails with the change, check reports it.
set -u
. /opt/vp/env.sh
N=$1; MODE=${2:-all}
V=${VSRC:-/verif}; S=$V/seeded/$N
W=$(mktemp -d /tmp/seed-XXXXXX)
trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"
cd "$W/repo" || exit 1
git checkout -q -- . ; git clean -fdq -e target 2>/dev/null
cp -r "$S" "$W/d"; rm -f "$W/d/patch.diff" "$W/d/meta.json"
git apply --check "$S/patch.diff" || { echo "$N: patch does not apply"; exit 1; }
if [ "$MODE" != check ]; then
  (timeout 300 bash "$W/d/demo.sh" >"$W/demo0.log" 2>&1); r0=$?
  [ $r0 = 0 ] || { echo "$N: demo fails on the clean tree ($r0)"; tail -15 "$W/demo0.log"; }
fi
git apply "$S/patch.diff"
go build ./... || { echo "$N: does not build"; exit 1; }
if [ "$MODE" = all ]; then
  go test -json -vet=off -count=1 -timeout 10m ./... > "$W/t.json" 2>/dev/null
  python3 - "$W/t.json" <<'P'
import json,sys
st=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); ok=set()
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except Exception: continue
    if e.get('Action')=='pass' and e.get('Test'): ok.add(e['Package']+'/'+e['Test'])
bad=sorted(st-ok)
print("  stable tests: "+("all pass" if not bad else "BROKEN "+str(bad[:6])))
P
fi
if [ "$MODE" != check ]; then
  (timeout 300 bash "$W/d/demo.sh" >"$W/demo1.log" 2>&1); r1=$?
  echo "  demo: clean $r0, patched $r1"
  [ "$MODE" = demo ] && tail -5 "$W/demo1.log"
  [ $r1 = 0 ] && echo "$N: DEMO DOES NOT FAIL"
fi
if [ "$MODE" != demo ]; then
  P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  mkdir "$W/v"; cp -r $V/go $V/check.sh $V/known_findings.txt "$W/v/"; [ -d $V/ts ] && cp -r $V/ts "$W/v/"
  mkdir -p "$W/v/.build"; [ -d $V/.build/gocache ] && cp -r $V/.build/gocache "$W/v/.build/"
  sed -i "s#=> /repo#=> $W/repo#" "$W/v/go/go.mod"
  t0=$(date +%s)
  (VERIF_REPO=$W/repo timeout 900 bash "$W/v/check.sh" $P quick >"$W/check.log" 2>&1); rc=$?
  echo "$N: check $P exit $rc $(( $(date +%s)-t0 ))s: $(grep -a -c '^VIOLATION' "$W/check.log") violations; $(grep -a -m1 -A1 '^VIOLATION' "$W/check.log" | tail -1 | cut -c1-200)"
  [ $rc = 1 ] || tail -3 "$W/check.log"
fi
