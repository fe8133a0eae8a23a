# Sourced by check.sh: build the replay tool, which the exported archives are also given to.
(cd mc && go build -o "$MC_TMP/gimiq" terorie.dev/nimiq/cmd/gimiq)
