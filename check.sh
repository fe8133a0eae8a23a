#!/bin/bash
# check.sh ID quick|thorough: rebuild the checker from /repo's working tree and decide one property.
cd "$(dirname "$(readlink -f "$0")")" || exit 3
. /opt/vp/env.sh
export MC_ROOT=$PWD
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
MC_TMP=$(mktemp -d /tmp/mc.XXXXXXXX) || exit 3
export MC_TMP
trap 'rm -rf -- "$MC_TMP"' EXIT
(cd mc && go build -o "$MC_TMP/mc" .) || { echo "build failed" >&2; exit 3; }
if [ -f "mc/build_$ID.sh" ]; then
  . "mc/build_$ID.sh" || { echo "build of the $ID artefacts failed" >&2; exit 3; }
fi
"$MC_TMP/mc" run "$ID" "$TIER"
