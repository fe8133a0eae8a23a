# Sourced by check.sh: build the replay tool from the working tree.
(cd mc && go build -o "$MC_TMP/gimiq" terorie.dev/nimiq/cmd/gimiq)
