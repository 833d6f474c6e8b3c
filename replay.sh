#!/bin/bash
# replay.sh FILE: executes a replay file against /repo's working tree
set -u
FILE=$(realpath "$1")
. "$(dirname "$0")/env.sh"
TMP=$(mktemp -d /tmp/verif-replay.XXXXXX) || exit 2
trap 'rm -rf "$TMP"' EXIT
build "$TMP" || { tail -40 "$TMP/build.log" >&2; exit 2; }
if "$TMP/vrun" needs-race -file "$FILE"; then build_race "$TMP"; fi
TMPDIR=$TMP "$TMP/vrun" replay -v -file "$FILE"
