#!/bin/bash
# run.sh PROPERTY [quick|thorough]: builds the analyser (incremental) and runs one check
# against /repo's current source. Exit 0 held, 1 violation.
set -u
V=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
(
  export PATH=/usr/local/go/bin:$PATH GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GONOSUMDB='*' GOTOOLCHAIN=local GOWORK=off
  mkdir -p "$V/.bin"
  cd "$V/checker" && flock "$V/.bin/lock" go build -o "$V/.bin/ck" .
) || { echo "cannot build the analyser"; exit 3; }
[ "${1:-}" = "-setup" ] && exit 0
exec "$V/.bin/ck" -prop "$1" -tier "${2:-quick}" -verif "$V"
