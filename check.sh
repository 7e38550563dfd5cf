#!/bin/bash
# check.sh ID: decide one property on the current tree of /repo.
set -u
cd "$(dirname "$0")" || exit 2
here=$(pwd)
./setup.sh >/tmp/starpccheck.$$.log 2>&1 || { cat /tmp/starpccheck.$$.log; rm -f /tmp/starpccheck.$$.log; exit 2; }
rm -f /tmp/starpccheck.$$.log
n=$((10#${1#S}))
if [ "$n" -ge 40 ] && [ "$n" -le 56 ]; then
	exec node "$here/ts/main.mjs" -repo "${STARPC_REPO:-/repo}" -verif "$here" -property "$1"
fi
exec "$here/bin/starpccheck" -repo "${STARPC_REPO:-/repo}" -verif "$here" -property "$1"
