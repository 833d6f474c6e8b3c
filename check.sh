#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the machinery against /repo's working tree and runs one check
set -u
PROP=$1
TIER=${2:-${VERIF_TIER:-quick}}
DIR=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$DIR VERIF_TIER=$TIER VERIF_SEED=${VERIF_SEED:-1}
. "$DIR/env.sh"
TMP=$(mktemp -d /tmp/verif-check.XXXXXX) || exit 2
trap 'rm -rf "$TMP"' EXIT
if ! build "$TMP"; then
  echo "check failed: the machinery does not build against /repo" >&2
  tail -40 "$TMP/build.log" >&2
  exit 2
fi
if "$TMP/vrun" needs-race -prop "$PROP"; then build_race "$TMP"; fi
TMPDIR=$TMP "$TMP/vrun" check -prop "$PROP" -tier "$TIER"
exit $?
