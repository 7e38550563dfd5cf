#!/bin/bash
# seedcheck.sh [substr]: runs the check of each planted bug's property against a
# copy of /repo with the bug and reports whether it was caught.
V=$(cd "$(dirname "$0")/.." && pwd)
for d in "$V"/seeded/*"$1"*/; do
  id=$(basename "$d"); prop=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$d/meta.json")
  T=$(mktemp -d)
  cp -a /repo "$T/repo"; git -C "$T/repo" apply "$d/patch.diff" || { echo "NOAPPLY $id"; continue; }
  mkdir -p "$T/v"; cp "$V/known-findings.txt" "$T/v/" 2>/dev/null
  out=$("$V/bin/starpccheck" -property all -repo "$T/repo" -verif "$T/v" 2>&1)
  out=$out$'\n'$(node "$V/ts/main.mjs" -property all -repo "$T/repo" -verif "$T/v" 2>&1)
  got=$(echo "$out" | sed -n 's/^VIOLATION property=\([A-Z0-9]*\).*/\1/p' | tr '\n' ' ')
  case " $got" in *" $prop "*) echo "caught  $id $prop (all: $got)";; *) echo "MISSED  $id $prop (all: $got)";; esac
  rm -rf "$T"
done
