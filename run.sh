#!/bin/bash
# run.sh PROPERTY [quick|thorough]   decide one property on /repo's current source
# run.sh setup                       build the analyzer only
set -u
V=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
cd "$V" || exit 2
build() {
  local out="$V/.build/analyzer" stamp="$V/.build/stamp" now
  now=$(cd "$V/analyzer" && cat *.go go.mod go.sum vendor/modules.txt | sha256sum)
  if [ -x "$out" ] && [ "$(cat "$stamp" 2>/dev/null)" = "$now" ]; then return 0; fi
  mkdir -p "$V/.build"
  ( cd "$V/analyzer" && GOFLAGS= GOSUMDB=off /opt/veriftools/go1.26.10/bin/go build -mod=vendor -o "$out.$$" . ) || return 1
  mv "$out.$$" "$out"; echo "$now" > "$stamp"
}
build || { echo "analyzer does not build" >&2; exit 2; }
[ "$1" = setup ] && exit 0
GOFLAGS=-mod=readonly exec "$V/.build/analyzer" -repo /repo -verif "$V" -property "$1" -tier "${2:-quick}"
