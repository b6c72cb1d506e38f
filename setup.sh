#!/bin/bash
# Builds the runner and warms the build cache; checks rebuild what they need themselves.
. /opt/vp/env.sh
V="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$V"
mkdir -p "$V/bin" "$V/evidence" || exit 1
(cd "$V/tools" && GOFLAGS=-mod=mod go build -o "$V/bin/vrun.setup" .) || exit 1
"$V/bin/vrun.setup" -warm
exit 0
