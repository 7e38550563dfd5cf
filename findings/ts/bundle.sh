#!/bin/bash
# bundle.sh TREE IN OUT: bundles IN with the TypeScript sources of TREE (as
# "tree/...") and the stand-ins for the packages which are not installed.
D=$(cd "$(dirname "$0")" && pwd)
exec /opt/veriftools/node/node_modules/.bin/esbuild "$2" --bundle --format=esm --platform=node --outfile="$3" --log-level=error \
  --alias:tree="$1" --alias:starpc="$1/index.ts" --alias:it-pushable="$D/stubs/it-pushable.js" --alias:it-pipe="$D/stubs/it-pipe.js" \
  --alias:it-first="$D/stubs/it-first.js" --alias:event-iterator="$D/stubs/event-iterator.js" --alias:uint8arraylist="$D/stubs/uint8arraylist.js" \
  --alias:@aptre/protobuf-es-lite="$D/stubs/protobuf-es-lite.js" --alias:@chainsafe/libp2p-yamux="$D/stubs/opaque.js" \
  --alias:@libp2p/logger="$D/stubs/opaque.js" --alias:it-ws="$D/stubs/opaque.js" --alias:isomorphic-ws="$D/stubs/opaque.js"
