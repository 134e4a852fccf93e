#!/bin/bash
# check.sh PROPERTY [quick|thorough] -- decides one property on /repo's current
# source tree. Exit 0: it holds. Exit 1 with a VIOLATION line: it does not, or
# could not be decided. The checker is built from /verif/checker on every run.
id=${1:?property id}
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
export VERIF_SEED=${VERIF_SEED:-1}
export VERIF_DIR=$(cd "$(dirname "$0")" && pwd)
export VERIF_REPO=${VERIF_REPO:-/repo}
export GOFLAGS= GOPROXY=off GOSUMDB=off GOWORK=off GOTOOLCHAIN=local GO111MODULE=on
export PATH=$PATH:/usr/local/bin:/usr/local/go/bin
export HOME=${HOME:-/root}
t=$(mktemp -d /tmp/verif-check.XXXXXX) || t=
mkdir -p "$VERIF_DIR/evidence"
finish() { [ -n "$t" ] && find "$t" -depth -delete 2>/dev/null; exit "$1"; }
violation() {
  r=$VERIF_DIR/evidence/replay-$id.txt
  printf 'property %s could not be decided: %s\n' "$id" "$1" >"$r"
  cat "$t/log" >>"$r" 2>/dev/null
  cat "$r"
  printf '{"property":"%s","tier":"%s","seed":%d,"level":"other","coverage":{"explanation":"the checker did not finish"},"wall_s":0,"violations":1}\n' "$id" "$VERIF_TIER" "$VERIF_SEED" >"$VERIF_DIR/evidence/$id.json"
  echo "VIOLATION property=$id replay=$r"
  finish 1
}
[ -n "$t" ] || violation "no scratch directory"
cd "$VERIF_DIR/checker" || violation "no checker"
if ! go build -mod=vendor -o "$t/checker" . >"$t/log" 2>&1; then
  export GOCACHE=$t/gocache
  go build -mod=vendor -o "$t/checker" . >"$t/log" 2>&1 || violation "the checker does not build"
fi
timeout -k 5 800 "$t/checker" check "$id" >"$t/out" 2>"$t/log"
rc=$?
cat "$t/out"
case $rc in
0) finish 0 ;;
1) grep -q "^VIOLATION property=$id " "$t/out" && finish 1 ;;
esac
violation "the checker ended with status $rc"
