#!/bin/bash
# replay.sh FILE: rebuild from /repo's working tree and rerun one recorded execution.
# Exit 1 and a VIOLATION line if it happens again, 0 if the property holds on it now.
f=$(realpath "$1"); cd "$(dirname "$0")" || exit 2
./build.sh || exit 2
exec .build/debug/simrun replay "$f"
