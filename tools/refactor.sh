#!/bin/bash
# refactor.sh NAME...: applies tools/refactor/NAME.py (EDITS that keep the behaviour) to a scratch copy, builds and tests it, and runs every check on it, which must stay quiet.
here=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/env.sh 2>/dev/null
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0
bin=${DC:-$here/.bin/diskcheck}
for n in "$@"; do
  w=/tmp/rf.$n; rm -rf "$w" "$w.v"; cp -a /repo "$w"; mkdir -p "$w.v"; cp "$here/known-findings.txt" "$w.v/"
  python3 - "$here/tools/refactor/$n.py" "$w" <<'P' || exit 1
import sys
g={}; exec(open(sys.argv[1]).read(), g)
for f, old, new in g["EDITS"]:
    p=sys.argv[2]+"/"+f; s=open(p).read()
    assert s.count(old)==1, (f, s.count(old), old)
    open(p,"w").write(s.replace(old,new))
P
  cd "$w" || exit 1
  gofmt -l . | grep -v vendor
  go vet $(go list ./... | grep -v "diskii$") && go build ./... && go test $(go list ./... | grep -v "diskii$") 2>&1 | grep -v "no test files"
  P="${PROPS:-$(python3 -c "
import json;print(' '.join(c['property'] for c in json.load(open('$here/MANIFEST.json'))['checks']))")}"
  echo $P | tr ' ' '\n' | xargs -P 6 -I{} sh -c "timeout 900 $bin -prop {} -repo $w -verif $w.v > $w.v/{}.out 2>&1; rc=\$?; echo \"$n {} rc=\$rc \$(grep -m1 obligations $w.v/{}.out)\"; grep '^  \[' $w.v/{}.out | cut -c1-${W:-260} | head -${N:-3}"
  [ -n "$KEEP" ] || rm -rf "$w" "$w.v"
done
