#!/bin/bash
# detect.sh [quick|thorough] name|patch...: run the check of a planted bug's property with the bug applied, in a private
# mount namespace in which copies lie over /repo and /verif, so that neither is touched. CHECK=ID overrides the property
# (several allowed, separated by blanks). Planted bugs are names under seeded/, other patches are paths and need CHECK.
T=quick; case $1 in quick|thorough) T=$1; shift;; esac
if [ -z "$DETECT_INNER" ]; then
  D=$(mktemp -d /tmp/detect.XXXXXXXX) || exit 3
  trap 'rm -rf -- "$D"' EXIT
  cp -a /repo "$D/repo" && cp -a /verif "$D/verif" || exit 3
  DETECT_INNER=$D unshare -Urm bash -c 'mount --bind "$DETECT_INNER/repo" /repo && mount --bind "$DETECT_INNER/verif" /verif && exec bash "$@"' _ "$(readlink -f "$0")" "$T" "$@"
  exit
fi
cd /verif || exit 3
for id in "$@"; do
  f=$id; p=
  if [ -f "/verif/seeded/$id/patch.diff" ]; then
    f=/verif/seeded/$id/patch.diff
    p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  fi
  git -C /repo apply "$f" || { echo "$id: does not apply"; continue; }
  for c in ${CHECK:-$p}; do
    s=$(date +%s)
    out=$(./check.sh "$c" "$T" 2>&1); rc=$?
    if [ $rc = 1 ] && grep -q "^VIOLATION property=$c " <<<"$out"; then v=CAUGHT
    elif [ $rc = 0 ] ; then v=quiet; else v="rc=$rc $(tail -3 <<<"$out" | tr '\n' ' ')"; fi
    echo "$(basename "$id") $c $v $(( $(date +%s) - s ))s"
  done
  git -C /repo apply -R "$f"
done
