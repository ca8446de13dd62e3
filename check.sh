#!/bin/bash
# usage: check.sh <property id> [quick|thorough]
# Builds the symbolic execution engine if needed and decides one property of
# the code in /repo's working tree.
set -u
cd "$(dirname "$0")" || exit 2
V=$PWD
id=${1:?property}
[ $# -ge 2 ] && export VERIF_TIER=$2
bash "$V/build.sh" || exit 2
exec "$V/bin/symgo" -verif "$V" -repo "${VERIF_REPO:-/repo}" -property "$id"
