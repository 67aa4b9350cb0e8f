#!/bin/bash
# Decide one property: check.sh ID [--replay FILE]
# exit 0: held on everything explored; 1: VIOLATION line printed; 2: no verdict (build failure ...)
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
bash build.sh || { echo "check.sh: the harness does not build against /repo" >&2; exit 2; }
bin=mc
case "$1" in C04|C21) bin=mcs;; esac
exec "harness/target/release/$bin" "$@"
