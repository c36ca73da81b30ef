#!/bin/bash
# check.sh <property> [quick|thorough]: rebuild from /repo, then explore.
# check.sh replay <file>: rebuild from /repo, then replay that file.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
property="$1"
if [ "$1" = replay ]; then property=$(sed -n 's/^property //p' "$2"); fi
sim=$(bash ./build.sh "$property") || { echo "harness error: the simulator does not build" >&2; exit 2; }
if [ "$1" = replay ]; then exec "$sim" replay "$2"; fi
exec "$sim" check "$1" "${2:-${VERIF_TIER:-quick}}"
