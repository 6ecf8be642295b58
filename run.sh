#!/bin/bash
# run.sh <property id> quick|thorough          decide one property
# run.sh <property id> replay <file>           replay one violation
# Builds the library from /repo's working tree (ASan+UBSan, allocator calls
# redirected to the tracking allocator) and the checker in a scratch folder.
set -u
export LC_ALL=C.UTF-8 PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
unset OSL_PRECISION
ROOT=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
ID=$1; MODE=$2
export VERIF_ROOT=$ROOT
TMPD=$(mktemp -d /tmp/oslmc.XXXXXX) || exit 2
export VERIF_TMP=$TMPD
trap 'rm -rf "$TMPD"' EXIT
bash "$ROOT/lib/build.sh" "$REPO" "$TMPD" "$ROOT/checks/$ID.cpp" "$TMPD/check" >"$TMPD/build.log" 2>&1 || {
  cat "$TMPD/build.log" >&2; echo "build failed" >&2; exit 2; }
shift
"$TMPD/check" "$@"
rc=$?
exit $rc
