#!/bin/bash
# check.sh <property id> [tier]: builds the checker from the committed source and
# decides one property on /repo's current tree.
cd "$(dirname "$0")" || exit 2
id=$1
[ -n "$id" ] || { echo "usage: $0 <property id>" >&2; exit 2; }
[ -n "$2" ] && export VERIF_TIER=$2
export GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
: "${HOME:=/root}"; export HOME
[ -w "$HOME" ] || export GOCACHE="${GOCACHE:-/tmp/verif-gocache}"
d=$(mktemp -d /tmp/verif-check.XXXXXX) || exit 2
trap 'rm -rf "$d"' EXIT
(cd checker && GOFLAGS=-mod=vendor go build -o "$d/checker" . && GOFLAGS=-mod=vendor go build -o "$d/goyacc" ./goyacc) || exit 2
"$d/checker" -id "$id" -repo "${VERIF_REPO:-/repo}" -verif "$PWD"
