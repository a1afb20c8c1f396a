#!/bin/bash
# Builds the simulator once to see that everything it needs is there.
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/.build" "$here/evidence"
b=$(mktemp -d "$here/.build/b.XXXXXX") || exit 1
trap 'rm -rf "$b"' EXIT
A0_RACE=1 bash "$here/build.sh" "$b"
