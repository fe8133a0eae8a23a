# Sourced by check.sh: link the checker with instrumented copies of package policy, generated from the working tree. If
# that cannot be done (say, the package uses channels), explore the package itself, like C01 does.
{ mkdir -p "$MC_TMP/gen" &&
"$MC_TMP/mc" child genpolicy "$MC_TMP/gen" &&
(cd mc && go build -overlay "$MC_TMP/gen/overlay.json" -o "$MC_TMP/mc" .); } || . mc/build_C01.sh
