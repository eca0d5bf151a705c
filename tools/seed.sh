#!/bin/bash
# seed.sh ID...: confirms planted bugs in a scratch copy: applies, builds, tests still pass, demo passes before and fails after; then says which checks alarm.
here=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/env.sh 2>/dev/null
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0
bash "$here/build.sh" || exit 1
for id in "$@"; do
  d=$here/seeded/$id; w=/tmp/seed.$$.$id
  cp -a /repo "$w"; cd "$w" || exit 1
  bash "$d/demo.sh" >"$w.log0" 2>&1; r0=$?
  git apply "$d/patch.diff" || { echo "$id: patch does not apply"; rm -rf "$w"; continue; }
  go build ./... >"$w.logb" 2>&1; rb=$?
  go test $(go list ./... | grep -v "diskii$") >"$w.logt" 2>&1; rt=$?
  bash "$d/demo.sh" >"$w.log1" 2>&1; r1=$?
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  mkdir -p "$w.v"; cp "$here/known-findings.txt" "$w.v/"
  out=""
  for q in ${PROPS:-$p}; do timeout 880 "$here/.bin/diskcheck" -prop $q -repo "$w" -verif "$w.v" >"$w.logc" 2>&1; out="$out $q:$?"; [ -n "$SHOW" ] && grep '^  \[' "$w.logc" | cut -c1-300 | head -${SHOW}; done
  echo "$id: demo-before=$r0 build=$rb tests=$rt demo-after=$r1 checks:$out"
  [ $r0 != 0 ] && tail -5 "$w.log0"; [ $rt != 0 ] && grep -v '^ok\|no test files' "$w.logt" | head -10
  rm -rf "$w" "$w".*
done
