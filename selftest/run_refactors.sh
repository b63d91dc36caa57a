#!/bin/bash
# run_refactors.sh [name...]: behaviour-preserving edits of /repo on which
# every check must stay quiet. Works on scratch copies.
cd "$(dirname "$0")" || exit 2
V=$PWD/..
export GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOFLAGS=-mod=vendor
T=$(mktemp -d /tmp/refac.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
(cd "$V/checker" && go build -o "$T/chk" .) || exit 2
ids=${CHECKS:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('$V/MANIFEST.json'))['checks']])")}
names=${*:-$(ls refactors)}
for n in $names; do
  cp -a /repo "$T/repo"
  if [ -f "refactors/$n/edit.py" ]; then (cd "$T/repo" && python3 "$V/selftest/refactors/$n/edit.py") || { echo "$n: edit failed"; rm -rf "$T/repo"; continue; }; fi
  (cd "refactors/$n" && for f in $(find . -name '*.go' -o -name '*.y' -o -name '*.x'); do cp --parents "$f" "$T/repo/"; done)
  if ! (cd "$T/repo" && export GOFLAGS=-mod=mod PATH=$PATH:/opt/vp/gobin GOPATH=/root/go && go generate . && go build ./... && go test ./... >"$T/out" 2>&1) >"$T/build" 2>&1; then
    echo "$n: does not build or pass"; cat "$T/build" "$T/out" | head -20
  fi
  mkdir -p "$T/res" "$T/v"
  for f in oracle known_findings.txt properties.jsonl; do cp -a "$V/$f" "$T/v/"; done
  mkdir -p "$T/v/evidence"
  echo $ids | tr ' ' '\n' | xargs -P 4 -I{} sh -c "VERIF_DEBUG= timeout 900 $T/chk -id {} -repo $T/repo -verif $T/v >$T/res/{} 2>&1; echo \$? >$T/res/{}.rc"
  bad=""
  for i in $ids; do [ "$(cat "$T/res/$i.rc")" = 0 ] || bad="$bad $i"; done
  echo "$n:${bad:- quiet}"
  for i in $bad; do head -${LINES_:-3} "$T/res/$i" | cut -c1-${WIDTH:-500} | sed "s/^/   $i /"; done
  rm -rf "$T/repo" "$T/res" "$T/v"
done
