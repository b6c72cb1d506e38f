#!/bin/bash
# run.sh <property id>: decides one property of /repo's current working tree.
. /opt/vp/env.sh
V="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$V"
mkdir -p "$V/bin" || exit 2
BIN="$V/bin/vrun.$$"
(cd "$V/tools" && GOFLAGS=-mod=mod go build -o "$BIN" .) || exit 2
"$BIN" "$@"
RC=$?
rm -f -- "$BIN"
exit $RC
