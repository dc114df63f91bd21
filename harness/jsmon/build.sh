#!/bin/bash
# Bundles the JavaScript clients of the repository with the driver: build.sh OUT
set -e
cd "$(dirname "$0")"
REPO=${VERIF_REPO:-/repo}
E=/opt/veriftools/node/node_modules/.bin/esbuild
[ -x "$E" ] || E=esbuild
"$E" driver.ts --bundle --platform=node --target=node18 --log-level=warning --tsconfig-raw='{"compilerOptions":{"target":"ES2020"}}' \
  --alias:@metaplex-foundation/umi/serializers=./umi/serializers.ts \
  --alias:@metaplex-foundation/umi=./umi/index.ts \
  --alias:@metaplex-foundation/mpl-token-metadata=./umi/tm.ts \
  --alias:@metaplex-foundation/mpl-toolbox=./umi/toolbox.ts \
  --alias:@client/asset="$REPO/clients/js/asset/src/index.ts" \
  --alias:@client/bridge="$REPO/clients/js/bridge/src/index.ts" \
  --alias:@client/proxy="$REPO/clients/js/proxy/src/index.ts" \
  --outfile="$1"
