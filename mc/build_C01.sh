# Sourced by check.sh: link the checker, with Go's race detector, with the library as LibraryOverlay changes it. If that
# does not build (say, for a type of package sync the stand-ins lack), leave sync alone and explore whole operations.
race=-race
case $ID in C02|P02) race=;; esac
mkdir -p "$MC_TMP/gen"
linked=
for coarse in "" coarse; do
  "$MC_TMP/mc" child genlibrary "$MC_TMP/gen" $coarse || break
  (cd mc && go build $race -overlay "$MC_TMP/gen/overlay.json" -o "$MC_TMP/mclib" .) && { linked=1; break; }
done
export GORACE="suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0 log_path=$MC_TMP/race"
[ -n "$linked" ] && mv "$MC_TMP/mclib" "$MC_TMP/mc"
