#!/bin/bash
# builds the machinery once (every check builds it again from /repo's current tree)
set -eu
cd "$(dirname "$0")"
. ./env.sh
TMP=$(mktemp -d /tmp/verif-setup.XXXXXX)
trap 'rm -rf "$TMP"' EXIT
build "$TMP" || { tail -40 "$TMP/build.log" >&2; exit 1; }
echo ok
