#!/bin/bash
# Builds the checker once (fills the Go build cache); every check builds it again from the current tree.
cd "$(dirname "$(readlink -f "$0")")" || exit 3
. /opt/vp/env.sh
mkdir -p evidence
T=$(mktemp -d /tmp/mc.XXXXXXXX) || exit 3
trap 'rm -rf -- "$T"' EXIT
cd mc && go build -o "$T/mc" .
