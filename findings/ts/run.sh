#!/bin/bash
# Shows the defects found in the TypeScript sources of a tree (default /repo).
D=$(cd "$(dirname "$0")" && pwd); tree=${1:-/repo}
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
"$D/bundle.sh" "$tree" "$D/defects.ts" "$T/d.mjs" && node "$T/d.mjs"
