#!/bin/bash
# run_seeds.sh [id...]: runs the check of each planted bug's property (ALL=1:
# every check) on a scratch copy of /repo with the bug.
cd "$(dirname "$0")" || exit 2
V=$PWD/..
export GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOFLAGS=-mod=vendor
T=$(mktemp -d /tmp/seedrun.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
(cd "$V/checker" && go build -o "$T/chk" .) || exit 2
all=$(python3 -c "import json;print(*[c['property'] for c in json.load(open('$V/MANIFEST.json'))['checks']])")
names=${*:-$(ls "$V/seeded")}
one() {
  n=$1; W=$T/$n; mkdir -p "$W/v/evidence"
  cp -a /repo "$W/repo"
  for f in oracle known_findings.txt properties.jsonl; do cp -a "$V/$f" "$W/v/"; done
  (cd "$W/repo" && git apply "$V/seeded/$n/patch.diff") || { echo "$n: patch fails"; return; }
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$n/meta.json'))['property'])")
  ids=$p; [ -n "$ALL" ] && ids=$all
  hit=""
  for i in $ids; do
    VERIF_DEBUG= timeout 900 "$T/chk" -id $i -repo "$W/repo" -verif "$W/v" >"$W/$i.out" 2>&1; rc=$?
    if [ $rc = 1 ] && grep -q "^VIOLATION property=$i " "$W/$i.out"; then hit="$hit $i"; elif [ $rc != 0 ]; then hit="$hit $i(rc$rc)"; fi
  done
  echo "$n ($p): ${hit:- MISSED}"
  [ -n "$LINES_" ] && for i in $hit; do head -$LINES_ "$W/$i.out" | cut -c1-${WIDTH:-300} | sed 's/^/   /'; done
  rm -rf "$W"
}
export -f one; export T V all ALL LINES_ WIDTH
echo $names | tr ' ' '\n' | xargs -P ${P:-4} -I{} bash -c 'one {}'
