#!/bin/bash
# check.sh ID [quick|thorough]: decides property ID from /repo's current source.
# Exit 0: the property holds; exit 1 with a VIOLATION line: it does not (or could not be decided).
id=$1
here=$(cd "$(dirname "$0")" && pwd)
[ -n "$2" ] && export VERIF_TIER=$2
mkdir -p "$here/evidence"
log=$here/evidence/$id.log
if ! bash "$here/build.sh" >"$log" 2>&1; then
  cat "$log"; echo "cannot build the analyzer"; exit 2
fi
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0
timeout 850 "$here/.bin/diskcheck" -prop "$id" -repo /repo -verif "$here" >"$log" 2>&1
rc=$?
head -c 20000 "$log"
case $rc in
  0) exit 0 ;;
  1) grep -q "^VIOLATION property=$id " "$log" && exit 1 ;;
esac
# The analysis itself gave up (stack or time exhausted): not decided, so not accepted.
echo "analysis did not finish (exit $rc)" | tee -a "$here/evidence/$id.violations.txt"
[ -f "$here/evidence/$id.json" ] || echo "{\"property\":\"$id\",\"tier\":\"${VERIF_TIER:-quick}\",\"seed\":${VERIF_SEED:-0},\"level\":\"other\",\"coverage\":{\"explanation\":\"the analysis did not finish\"},\"wall_s\":0}" >"$here/evidence/$id.json"
echo "VIOLATION property=$id replay=$here/evidence/$id.violations.txt"
exit 1
