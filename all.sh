#!/bin/bash
# all.sh: decides every property (and rewrites the evidence of all).
cd "$(dirname "$0")" || exit 2
./setup.sh || exit 2
rc=0
bin/starpccheck -repo "${STARPC_REPO:-/repo}" -verif "$PWD" -property all || rc=1
node ts/main.mjs -repo "${STARPC_REPO:-/repo}" -verif "$PWD" -property all || rc=1
exit $rc
