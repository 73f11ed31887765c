#!/bin/bash
# check.sh PROPERTY: rebuild from /repo's working tree, then search.  Exit 0 / 1 (VIOLATION) / 2.
cd "$(dirname "$0")" || exit 2
./build.sh || exit 2
exec .build/debug/simrun check "$1"
