#!/bin/bash
# usage: check.sh PROPERTY   (VERIF_TIER=quick|thorough, VERIF_SEED=n)
# Builds the symbolic executor if it is missing and runs it on /repo's
# current working tree.
cd "$(dirname "$0")" || exit 2
. ./env.sh
if [ ! -x bin/gosym ] || [ -n "$(find engine -newer bin/gosym -name '*.go' | head -1)" ]; then
  ./setup.sh >&2 || exit 2
fi
exec bin/gosym -verif "$PWD" -repo "${VERIF_REPO:-/repo}" $GOSYM_FLAGS "$@"
