#!/bin/bash
# Runs the demonstrations of the found defects against a starpc tree (default /repo).
# usage: run.sh [tree]
here=$(cd "$(dirname "$0")" && pwd); tree=${1:-/repo}
export PATH=/opt/veriftools/go1.24.13/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly
ov=$(mktemp)
cat > "$ov" <<J
{"Replace":{"$tree/srpc/findings_verif_test.go":"$here/srpc_findings_test.go",
"$tree/rpcstream/findings_verif_test.go":"$here/rpcstream_findings_test.go"}}
J
cd "$tree" && go test -overlay "$ov" -count=1 -timeout 60s -run 'TestF[0-9]' -v ./srpc ./rpcstream 2>&1 | grep -aE '^(---|===|ok|FAIL|panic|\s+\S+_test.go)' | grep -av '=== RUN'
rc=${PIPESTATUS[0]}
go test -race -overlay "$ov" -count=1 -timeout 120s -run 'TestF35' -v ./srpc 2>&1 | grep -aE '^(---|ok|FAIL|panic|WARNING: DATA RACE)' || rc=1
rm -f "$ov"; exit $rc
