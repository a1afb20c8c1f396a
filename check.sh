#!/bin/bash
# check.sh ID [--replay FILE] [driver flags]: builds the simulator from /repo's
# working tree and explores property ID (VERIF_SEED, VERIF_TIER).
here=$(cd "$(dirname "$0")" && pwd)
id=$1; shift
mkdir -p "$here/.build" || exit 3
b=$(mktemp -d "$here/.build/b.XXXXXX") || exit 3
trap 'rm -rf "$b"' EXIT
race=()
case $id in
C01|C06|C07|C08|C09|C10|C14|C15|C16|C17|C18) export A0_RACE=1; race=(-race-worker "$b/worker-race");;
esac
if ! bash "$here/build.sh" "$b" >"$b/build.log" 2>&1; then
  cat "$b/build.log" >&2
  echo "check.sh: build failed" >&2
  exit 2
fi
common=(-worker "$b/worker" "${race[@]}" -sites "$b/ov/sites.json" -known "$here/known_findings.jsonl")
if [ "$1" = "--replay" ]; then
  "$b/driver" "${common[@]}" -id "$id" -replay "$2"
  exit $?
fi
"$b/driver" "${common[@]}" -id "$id" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" \
  -evidence "$here/evidence/$id.json" -replays "$here/replays" "$@"
exit $?
