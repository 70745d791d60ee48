#!/bin/bash
# Builds everything the checks use, so that a check only has to rebuild what changed.
. "$(dirname "$0")/lib.sh"
cd "$VERIF" || exit 1
build_main || exit 1
build_kern || exit 1
build_asan || exit 1
build_tsan || exit 1
build_cli || exit 1
