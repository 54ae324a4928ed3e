#!/bin/bash
# check.sh PROPERTY [TIER]: decides one property on /repo's current tree.
cd "$(dirname "$0")" || exit 2
out=$(bash build.sh 2>&1) || { echo "$out"; echo "ERROR building the engine"; exit 2; }
exec ./work/symx -p "$1" -tier "${2:-${VERIF_TIER:-quick}}"
