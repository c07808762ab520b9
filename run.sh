#!/bin/bash
# run.sh PROPERTY TIER: builds the checker and decides one property of /repo
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GOWORK=off
export HOME="${HOME:-/root}"
mkdir -p "$here/bin" "$here/evidence"
prop=$1
tier=${2:-quick}
if ! (cd "$here/checker" && go build -o "$here/bin/checker" .); then
  echo "the checker does not build" >&2
  exit 2
fi
if [ "$prop" = build ]; then exit 0; fi
exec "$here/bin/checker" -repo "${VERIF_REPO:-/repo}" -verif "$here" -prop "$prop" -tier "$tier"
