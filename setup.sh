#!/bin/bash
# Builds both profiles and checks that one seed is one execution.
cd "$(dirname "$0")" || exit 2
./build.sh || exit 2
mkdir -p evidence replays
exec .build/debug/simrun selftest 40
