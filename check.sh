#!/bin/bash
# usage: check.sh PROPERTY [--replay FILE] [--cases N]
# Builds the harness and, from /repo's working tree, every build of the tool
# the property needs, in a scratch directory; then runs the property.
set -u
ID=${1:?property}; shift
ROOT=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
TIER=${VERIF_TIER:-quick}
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/usr/local/go/bin
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on
S=$(mktemp -d "${TMPDIR:-/tmp}/vbspcheck.XXXXXX") || exit 2
trap 'chmod -R u+rwx "$S" 2>/dev/null; rm -rf "$S"' EXIT
mkdir -p "$S/bin" "$S/cases"; chmod 755 "$S" "$S/bin" "$S/cases"
if [ -n "${VERIF_GOCACHE:-}" ]; then
  export GOCACHE=$VERIF_GOCACHE
else
  export GOCACHE=$S/gocache
  # start from the compiled standard library the build of /repo left, if any
  cp -r /opt/vp/gocache "$GOCACHE" 2>/dev/null || mkdir -p "$GOCACHE"
fi
build() { # what, output, env...
  local what=$1 out=$2; shift 2
  (cd "$what" && env "$@" go build -buildvcs=false -o "$out" . ) > "$S/build.log" 2>&1 && return 0
  echo "ERROR: cannot build $what ($*)"; cat "$S/build.log"; exit 2
}
build "$ROOT/harness" "$S/harness" CGO_ENABLED=0
for b in $("$S/harness" -prop "$ID" -need); do
  case $b in
    vb) build "$REPO" "$S/bin/vb" CGO_ENABLED=0 ;;
    vb386) build "$REPO" "$S/bin/vb386" CGO_ENABLED=0 GOARCH=386 ;;
    vbrace)
      (cd "$REPO" && CGO_ENABLED=1 go build -race -buildvcs=false -o "$S/bin/vbrace" . ) > "$S/build.log" 2>&1 || { echo "ERROR: cannot build with -race"; cat "$S/build.log"; exit 2; } ;;
    *) echo "ERROR: property $ID unknown or needs unknown build $b"; exit 2 ;;
  esac
done
"$S/harness" -prop "$ID" -tier "$TIER" -root "$ROOT" -bins "$S/bin" -scratch "$S/cases" "$@"
